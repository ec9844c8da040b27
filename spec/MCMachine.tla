----------------------------- MODULE MCMachine -----------------------------
(***************************************************************************)
(* All machines of dimension N with one output bit, from every state:      *)
(* the computed minimal polynomial annihilates the sequence for ever       *)
(* (4N further steps cover the eventual period of dimension <= N by        *)
(* linearity), and no polynomial of smaller degree annihilates 2N values.  *)
(***************************************************************************)
EXTENDS Machine
CONSTANT N
VARIABLES k, seen      \* steps taken, bits seen
allvars == << A, C, st, k, seen >>
Vecs == SUBSET (0..(N - 1))
Init ==
    /\ A \in [1..N -> Vecs]
    /\ C \in [1..1 -> Vecs]
    /\ st \in Vecs
    /\ k = 0 /\ seen = << >>
Step ==
    /\ k < 6 * N
    /\ \E w \in SUBSET {0} : Generate(w) /\ seen' = Append(seen, IF 0 \in w THEN 1 ELSE 0)
    /\ k' = k + 1
Done == k = 6 * N /\ UNCHANGED allvars
Next == Step \/ Done
Spec == Init /\ [][Next]_allvars

P == MinimalPoly(SubSeq(seen, 1, 2 * N))
MinimalOK ==
    k = 6 * N =>
      /\ Deg(P) <= N
      /\ Annihilates(P, seen)
      /\ \A q \in SUBSET (0..N) :
            (Deg(q) >= 0 /\ Annihilates(q, SubSeq(seen, 1, 2 * N))) => Deg(q) >= Deg(P)
      /\ \A q \in SUBSET (0..N) :
            (Deg(q) = Deg(P) /\ Annihilates(q, SubSeq(seen, 1, 2 * N))) => q = P
\* the minimal polynomial of the sequence divides every polynomial annihilating it
DividesOK ==
    k = 6 * N => \A q \in SUBSET (0..N) :
            (q # {} /\ Annihilates(q, seen)) => Divides(P, q)
=============================================================================
