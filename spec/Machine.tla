------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* An F2-linear generator as a state machine: a state vector st, the       *)
(* one-step transition A and the output rows C (row b+1 gives output bit b,*)
(* counted from the least significant bit).  One call of generate() moves  *)
(* the state and then reads the outputs.                                   *)
(***************************************************************************)
EXTENDS GF2

VARIABLES A, C, st
mvars == << A, C, st >>

Dim == Len(A)
Out(s) == {b \in 0..(Len(C) - 1) : Odd(C[b + 1] \cap s)}

Build(AA, CC)   == A' = AA /\ C' = CC /\ st' = {}
Place(s)        == st' = s /\ UNCHANGED << A, C >>
Generate(w)     == st' = MatVec(A, st) /\ w = Out(MatVec(A, st)) /\ UNCHANGED << A, C >>

\* the first k values of an output functional after state s, as a 0/1 sequence
StatesAfter(M, s, k) ==
    FoldLeft(LAMBDA acc, i : Append(acc, MatVec(M, IF i = 1 THEN s ELSE acc[i - 1])), << >>, Iota(1, k))
BitSequence(M, row, s, k) ==
    LET ss == StatesAfter(M, s, k) IN [i \in 1..k |-> Dot(row, ss[i])]

(***************************************************************************)
(* The minimal polynomial of a bit sequence of an n-dimensional machine is *)
(* determined by its first 2n values.                                      *)
(***************************************************************************)
MinimalPolyOf(M, row, s) == MinimalPoly(BitSequence(M, row, s, 2 * Len(M)))
=============================================================================
