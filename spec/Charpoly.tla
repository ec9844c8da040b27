------------------------------ MODULE Charpoly ------------------------------
(***************************************************************************)
(* The polynomial of the whole output word, and applying a polynomial of   *)
(* the transition to the state.                                            *)
(***************************************************************************)
EXTENDS Machine

\* p(M) s
ApplyPoly(M, p, s) ==
    LET xs == FoldLeft(LAMBDA acc, i : Append(acc, MatVec(M, acc[i])), << s >>, Iota(1, Deg(p)))
    IN FoldLeft(LAMBDA acc, i : IF (i - 1) \in p THEN Xor(acc, xs[i]) ELSE acc, {}, Iota(1, Deg(p) + 1))

\* the minimal polynomials of all output bits, accumulated into p0
Accumulate(M, D, s, p0) ==
    LET ss == StatesAfter(M, s, 2 * Len(M))
        mp(b) == MinimalPoly([i \in 1..(2 * Len(M)) |-> Dot(D[b], ss[i])])
    IN FoldLeft(LAMBDA acc, b : LCMP(acc, mp(b)), p0, Iota(1, Len(D)))

Annihilate(p) == st' = ApplyPoly(A, p, st) /\ UNCHANGED << A, C >>

Companion(f) ==   \* multiplication by x on residues modulo f
    [i \in 1..Deg(f) |-> (IF i > 1 THEN {i - 2} ELSE {}) \cup (IF (i - 1) \in f THEN {Deg(f) - 1} ELSE {})]
=============================================================================
