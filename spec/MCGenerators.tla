---------------------------- MODULE MCGenerators ----------------------------
(* The recursions of Generators on words of a few bits, every state: they are     *)
(* linear, the bits said not to matter do not, and the number of bits said to     *)
(* matter is right: no fewer bits determine the future where the step is          *)
(* one-to-one on them.                                                            *)
EXTENDS Generators
CONSTANTS WW, Steps, As, Bs, Qs, Ks      \* parameters to try
VARIABLES G, s, t, u, m, n         \* a state, its sum with a unit state u, the masked state
vars == << objs, G, s, t, u, m, n >>
Tm(b, c) == [u |-> 1, d |-> Lo(WW), s |-> 1, b |-> b, t |-> 1, c |-> c, l |-> 1]
Fam ==
    {[kind |-> "mt", w |-> WW, n |-> 3, r |-> r, m |-> p, a |-> a, t |-> Tm(b, {0})] : r \in 1..(WW - 1), p \in 1..2, a \in As, b \in Bs}
    \cup {[kind |-> "rmt", w |-> WW, n |-> 3, m |-> p, a |-> a, ysh |-> 1, t |-> Tm(b, {WW - 1})] : p \in 0..2, a \in As, b \in Bs}
    \cup {[kind |-> "mtgp", w |-> WW, n |-> 4, r |-> 1, m |-> p, sh1 |-> 1, sh2 |-> 1, tbl |-> << a, {1} >>, tmp |-> << {0}, b >>, fold |-> << 1, 1 >>] :
            p \in 2..3, a \in As, b \in Bs}
    \cup {[kind |-> "sfmt", w |-> 4, lane |-> 2, n |-> 3, m |-> 1, sl1 |-> 1, sl2 |-> q, sr1 |-> 1, sr2 |-> 3 - q, msk |-> k] : q \in Qs, k \in Ks}
    \cup {[kind |-> "dsfmt", w |-> 4, lane |-> 2, n |-> 2, m |-> 1, sl1 |-> 1, sr |-> 1, msk |-> k] : k \in Ks}
    \cup {[kind |-> "tiny", w |-> WW, n |-> 4, sh0 |-> 1, sh1 |-> 1, sh8 |-> 1, mat1 |-> a, mat2 |-> b, tmat |-> {0}] : a \in As, b \in Bs}
    \cup {[kind |-> "xs", w |-> WW, n |-> 4, xops |-> << a, b >>, wops |-> << c >>] : a \in {1, -1}, b \in {1, -1}, c \in {1, -1, 0}}
NW(g) == IF g.kind \in {"tiny", "xs"} THEN 4 ELSE g.n
Tuples(g) == [1..NW(g) -> SUBSET Lo(g.w)]
States(g) == {[w |-> w, x |-> x] : w \in Tuples(g), x \in IF g.kind = "dsfmt" THEN SUBSET Lo(g.w) ELSE {{}}}
Unit(g, j) == [w |-> [k \in 1..NW(g) |-> IF (j \div g.w) + 1 = k THEN {j % g.w} ELSE {}], x |-> IF j \div g.w >= NW(g) THEN {j % g.w} ELSE {}]
UnitIdx(g) == 0..(g.w * (NW(g) + (IF g.kind = "dsfmt" THEN 1 ELSE 0)) - 1)
Units(g) == {Unit(g, j) : j \in UnitIdx(g)}
Plus(a, b) == [w |-> [k \in 1..Len(a.w) |-> Xor(a.w[k], b.w[k])], x |-> Xor(a.x, b.x)]
Init == /\ objs = << >> /\ n = 0 /\ G \in Fam
        /\ s \in States(G) /\ u \in Units(G) /\ t = Plus(s, u) /\ m = Masked(G, s)
Next == n < Steps /\ n' = n + 1 /\ s' = StepG(G, s) /\ t' = StepG(G, t) /\ u' = StepG(G, u) /\ m' = StepG(G, m) /\ UNCHANGED << objs, G >>
Spec == Init /\ [][Next]_vars
LinearOK == /\ t = Plus(s, u)
            /\ OutG(G, t) = Xor(OutG(G, s), OutG(G, u)) \/ n = 0
DeadOK   == n > 0 => OutG(G, m) = OutG(G, s) /\ Masked(G, m) = Masked(G, s)
\* CrossRot and the lane shifts are what they say
ASSUME LanesOK ==
    \A x \in SUBSET Lo(4) : CrossRot(CrossRot(x, 2), 2) = x /\ LaneShl(x, 1, 4) = ShlB(x, 1, 4) /\ LaneShr(x, 1, 4) = ShrB(x, 1)
\* the declared dimension: masked states are Bits(G) many bits
DimOK    == n = 0 => Cardinality({j \in UnitIdx(G) : Masked(G, Unit(G, j)) # Masked(G, Plus(Unit(G, j), Unit(G, j)))}) = Bits(G)
=============================================================================
