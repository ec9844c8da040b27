-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* A register machine over words of W bits.  The register is the set of    *)
(* the positions that are 1 (0 = least significant).  Every helper of the  *)
(* library is one operation on the register: it either changes it or only  *)
(* answers a question about it.                                            *)
(***************************************************************************)
EXTENDS GF2

VARIABLES reg, W
wvars == << reg, W >>
Pos(w) == 0..(w - 1)

\* definitions
ShlW(x, s, w) == {p + s : p \in x} \cap Pos(w)
ShrW(x, s)    == {p - s : p \in {q \in x : q >= s}}
NotW(x, w)    == Pos(w) \ x
RevW(x, w)    == {w - 1 - p : p \in x}
WithBit(x, p, b) == IF b = 1 THEN x \cup {p} ELSE x \ {p}
MsbMask(n, w) == {p \in Pos(w) : p >= w - n}
BitCount(x)   == Cardinality(x)
\* place of the lowest one, counted from the most significant end
OnePos(x, w)  == IF x = {} THEN -1 ELSE w - 1 - Min(x)
FloorPow2(x)  == {Max(x)}
ToVec(x, w)   == {w - 1 - p : p \in x}        \* indices holding 1, index 0 = most significant bit
FromVec(v, w) == {w - 1 - i : i \in v}
\* the number mod m, m small
ModInt(x, m)  == IF x = {} THEN 0
                 ELSE FoldLeft(LAMBDA r, p : (2 * r + (IF p \in x THEN 1 ELSE 0)) % m, 0, Down(Max(x), 0))
InRange(x, a, b) == a + ModInt(x, b - a + 1)

Load(x, w) == reg' = x /\ W' = w
Put(x)     == reg' = x /\ UNCHANGED W
Ask        == UNCHANGED wvars

\* changes of the register; o is the recorded operation
Change(o) ==
    CASE o.op = "not"    -> NotW(reg, W)
      [] o.op = "and"    -> reg \cap Set(o.y)
      [] o.op = "or"     -> reg \cup Set(o.y)
      [] o.op = "xor"    -> Xor(reg, Set(o.y))
      [] o.op = "shl"    -> ShlW(reg, o.s, W)
      [] o.op = "shr"    -> ShrW(reg, o.s)
      [] o.op = "rev"    -> RevW(reg, W)
      [] o.op = "setbit" -> WithBit(reg, o.s, o.b % 2)
      [] o.op = "floor2p"-> FloorPow2(reg)
      [] o.op = "zero"   -> {}
      [] o.op = "one"    -> {0}
      [] o.op = "mask"   -> MsbMask(o.s, W)
      [] o.op = "vec"    -> FromVec(Set(o.y), W)       \* from a bit vector
      [] o.op = "cnv"    -> reg \cap Pos(o.from)       \* converted from a narrower or equal width
Answer(o) ==
    CASE o.op = "count"  -> BitCount(reg)
      [] o.op = "onepos" -> OnePos(reg, W)
      [] o.op = "getbit" -> (IF o.s \in reg THEN 1 ELSE 0)
      [] o.op = "iszero" -> (IF reg = {} THEN 1 ELSE 0)
      [] o.op = "eq"     -> (IF reg = Set(o.y) THEN 1 ELSE 0)
      [] o.op = "range"  -> InRange(reg, o.a, o.b)
=============================================================================
