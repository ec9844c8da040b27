------------------------------- MODULE GenSearch -------------------------------
(* Search sessions: <<1, k, 0, 0>> family member of kind k (first), then        *)
(* <<2, v, 0, 0>> a value put into the source and <<3, t, 0, 0>> a start.       *)
EXTENDS GenBase
VARIABLES m, starts
Init == m = 0 /\ starts = 0 /\ GenInit
Op == \/ m < 5 /\ Len(hist) = m /\ \E k \in 0..6 : Log(<< 1, k, 0, 0 >>) /\ m' = m + 1 /\ UNCHANGED starts
      \/ m >= 2 /\ \E v \in 0..9 : Log(<< 2, v, 0, 0 >>) /\ UNCHANGED << m, starts >>
      \/ m >= 2 /\ \E t \in -1..6 : Log(<< 3, t, 0, 0 >>) /\ starts' = starts + 1 /\ UNCHANGED m
Next == (Going /\ Op) \/ (Emit /\ UNCHANGED << m, starts >>)
Spec == Init /\ [][Next]_<< hist, m, starts >>
=============================================================================
