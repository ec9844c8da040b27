----------------------------- MODULE MCCharpoly -----------------------------
(***************************************************************************)
(* All machines of dimension N with an invertible transition and W output  *)
(* bits, under any interleaving of steps and of applying polynomials.      *)
(***************************************************************************)
EXTENDS Charpoly
CONSTANTS N, W, Depth
VARIABLES cnt, s0, p0     \* p0: the polynomial applied in total; s0: start
allvars == << A, C, st, cnt, s0, p0 >>
Vecs == SUBSET (0..(N - 1))
Invertible(M) == RankOf(M) = N
Init == /\ A \in {M \in [1..N -> Vecs] : Invertible(M)}
        /\ C \in [1..W -> Vecs]
        /\ st \in Vecs /\ s0 = st /\ p0 = One /\ cnt = 0
Step == /\ cnt < Depth /\ cnt' = cnt + 1
        /\ \/ Generate(Out(MatVec(A, st))) /\ p0' = Mul(p0, XP)
           \/ \E p \in SUBSET (0..2) : Annihilate(p) /\ p0' = Mul(p0, p)
        /\ UNCHANGED s0
Done == cnt = Depth /\ UNCHANGED allvars
Next == Step \/ Done
Spec == Init /\ [][Next]_allvars
\* applying polynomials composes like multiplying them
ComposeOK == st = ApplyPoly(A, p0, s0)
G == Accumulate(A, C, s0, One)
\* the accumulated polynomial annihilates every output bit, and is the same from every later state
CharOK == (cnt <= 1) =>
    /\ Deg(G) <= N
    /\ \A b \in 1..W : Annihilates(G, BitSequence(A, C[b], s0, 4 * N))
    /\ p0 = XP => Accumulate(A, C, st, One) = G
    /\ \A q \in SUBSET (0..N) : (q # {} /\ \A b \in 1..W : Annihilates(q, BitSequence(A, C[b], s0, 4 * N))) => Divides(G, q)
\* the cofactor of an irreducible factor leaves a state whose outputs live on that factor
CofactorOK == (cnt = 0) =>
    \A f \in SUBSET (0..N) : (IrreducibleDef(f) /\ Divides(f, G)) =>
        LET H == Accumulate(A, C, ApplyPoly(A, Div(G, f), s0), One)
        IN H \in {One, f} /\ (~Divides(f, Div(G, f)) => H = f)
AnnihilatedOK == (cnt = 0) => \A b \in 1..W :
        \A i \in 1..(2 * N) : BitSequence(A, C[b], ApplyPoly(A, G, s0), 2 * N)[i] = 0
=============================================================================
