------------------------------- MODULE GenEqui -------------------------------
(* Sessions on one machine: 1 place (a new nonzero state), 2 generate a times,  *)
(* 3 open query b at accuracy class a, 4 answer query b (a: all / one).  Several *)
(* queries may be open while the machine moves on.                               *)
EXTENDS GenBase
VARIABLE live
Init == live = {} /\ GenInit
Op == \/ Log(<< 1, 0, 0, 0 >>) /\ UNCHANGED live
      \/ \E a \in 1..6 : Log(<< 2, 0, a, 0 >>) /\ UNCHANGED live
      \/ \E a \in 0..4, b \in (1..4) \ live : Log(<< 3, 0, a, b >>) /\ live' = live \cup {b}
      \/ \E a \in 0..1, b \in live : Log(<< 4, 0, a, b >>) /\ live' = live \ {b}
Next == (Going /\ Op) \/ (Emit /\ UNCHANGED live)
Spec == Init /\ [][Next]_<< live, hist >>
=============================================================================
