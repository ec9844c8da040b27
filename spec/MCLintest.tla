------------------------------ MODULE MCLintest ------------------------------
(* Every two-bit machine, every single deviation, every pair of states: linear  *)
(* generators are accepted; a deviation inside the window that is visible for   *)
(* the chosen states is rejected; one outside the window is not seen.           *)
EXTENDS Lintest
CONSTANTS N, W
VARIABLES s, t
Vecs == SUBSET (0..(N - 1))
Devs == {<< >>} \cup {<< [kind |-> k, at |-> a, bit |-> b, i |-> 0, j |-> N - 1] >> :
            k \in {"const", "and", "sticky"}, a \in 0..(Window + 1), b \in 0..(W - 1)}
Init == /\ A \in [1..N -> Vecs] /\ C \in [1..W -> Vecs] /\ st = {}
        /\ dev \in Devs /\ join \in {"xor", "or", "left", "skip0"} /\ s \in Vecs /\ t \in Vecs
Next == UNCHANGED << A, C, st, dev, join, s, t >>
Spec == Init /\ [][Next]_<< A, C, st, dev, join, s, t >>
LinearOK == (dev = << >> /\ join = "xor") => Verdict(s, t)
OutsideOK == (join = "xor" /\ Len(dev) = 1 /\ dev[1].at >= Window) => Verdict(s, t)
ConstOK == (join = "xor" /\ Len(dev) = 1 /\ dev[1].kind = "const" /\ dev[1].at < Window) => ~Verdict(s, t)
OrderOK == (join = "xor" /\ (dev = << >> \/ dev[1].kind # "sticky")) => (SumAgrees(s, t) <=> SumAgrees(t, s))
=============================================================================
