------------------------------ MODULE MCLinObj ------------------------------
(* A generator kept in a ring of words (as the MT-like generators are), with     *)
(* dead bits in the oldest word, against the formal sums of LinObj: every history *)
(* of at most Ops operations on two objects, every first state, every pos/mata.   *)
EXTENDS LinObj
CONSTANTS Size, WW, Dead, Ops
VARIABLES cell, idx, pos, mata, n
allv == << obj, rev, base, W, cell, idx, pos, mata, n >>
Full == 0..(WW - 1)
Low  == 0..(Dead - 1)            \* dead bits of the oldest word
Up   == Full \ Low
H == 2 * Size
At(c, i) == c[i % Size]
\* one step of the ring <<c, i>>
StepRing(c, i) ==
    LET j == (i + 1) % Size
        y == (At(c, j) \cap Up) \cup (At(c, j + 1) \cap Low)
        v == Xor(Xor(At(c, j + pos), {p - 1 : p \in y \ {0}}), IF 0 \in y THEN mata ELSE {})
    IN << [c EXCEPT ![j] = v], j >>
OutRing(r) == r[1][r[2]]
FutureOf(c, i, k) == \* the first k outputs
    FoldLeft(LAMBDA acc, x : LET r == StepRing(acc[1], acc[2]) IN << r[1], r[2], Append(acc[3], OutRing(r)) >>,
             << c, i, << >> >>, Iota(1, k))[3]
AddRing(c, i, d, j) == [k \in 0..(Size - 1) |-> Xor(c[k], At(d, j + k - i + Size))]
\* every word but the oldest, and the live bits of the oldest, are zero
IsZeroRing(c, i) == /\ At(c, i + 1) \cap Up = {}
                    /\ \A k \in 2..Size : At(c, i + k) = {}
Seeds == [0..(Size - 1) -> SUBSET Full]
Turn(s) == [k \in 0..(Size - 1) |-> IF k = 0 THEN Xor(s[Size - 1], {0}) ELSE s[k - 1]]
NoRing == [k \in 0..(Size - 1) |-> {}]
Init ==
    /\ W = WW /\ pos \in 2..(Size - 1) /\ mata \in SUBSET Full
    /\ \E s \in Seeds : base = << s, Turn(s) >>       \* seeds; replaced by their futures below
    /\ obj = [o \in 1..2 |-> {}] /\ rev = [o \in 1..2 |-> FALSE] /\ n = 0
    /\ cell = [o \in 1..2 |-> NoRing] /\ idx = [o \in 1..2 |-> 0]
Count == n < Ops /\ n' = n + 1 /\ UNCHANGED << pos, mata >>
Next ==
    /\ Count
    /\ \/ \E o \in 1..2, b \in 1..2 : Start(o, b) /\ cell' = [cell EXCEPT ![o] = base[b]] /\ idx' = [idx EXCEPT ![o] = Size - 1]
       \/ \E o \in 1..2 : Step(o) /\ LET r == StepRing(cell[o], idx[o]) IN cell' = [cell EXCEPT ![o] = r[1]] /\ idx' = [idx EXCEPT ![o] = r[2]]
       \/ \E o, p \in 1..2 : Add(o, p) /\ cell' = [cell EXCEPT ![o] = AddRing(cell[o], idx[o], cell[p], idx[p])] /\ UNCHANGED idx
       \/ \E o, p \in 1..2 : o # p /\ Clone(o, p) /\ cell' = [cell EXCEPT ![p] = cell[o]] /\ idx' = [idx EXCEPT ![p] = idx[o]]
       \/ \E o \in 1..2 : Clear(o) /\ cell' = [cell EXCEPT ![o] = NoRing] /\ idx' = [idx EXCEPT ![o] = 0]
Spec == Init /\ [][Next]_allv
\* the futures the formal sums speak of
SumFuture(f, k) ==
    LET m == 1 + k + Ops
        b1 == FutureOf(base[1], Size - 1, m)
        b2 == FutureOf(base[2], Size - 1, m)
    IN [x \in 1..k |-> FoldLeft(LAMBDA acc, t : Xor(acc, (IF t[1] = 1 THEN b1 ELSE b2)[t[2] + x]), {}, SetToSeq(f))]
VectorOK == \A o \in 1..2 : FutureOf(cell[o], idx[o], H) = SumFuture(obj[o], H)
\* the zero test of the ring is a sound and, when the step is invertible, exact answer
ZeroTestOK == \A o \in 1..2 :
    LET f == FutureOf(cell[o], idx[o], H)  z == IsZeroRing(cell[o], idx[o])  silent == \A k \in 1..H : f[k] = {}
    IN /\ obj[o] = {} => z
       /\ ~silent => ~z
       /\ (silent /\ WW - 1 \in mata) => z
=============================================================================
