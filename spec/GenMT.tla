-------------------------------- MODULE GenMT --------------------------------
(* Sessions with up to three sources: 1 create (a: 0 mt32, 1 mt64; b: constructor *)
(* form), 2 re-seed (a: form, b: size class), 3 a run of reads (a: port, b: size  *)
(* class of the run).                                                             *)
EXTENDS GenBase
VARIABLE alive
Init == alive = {} /\ GenInit
Op == \/ \E id \in 1..3, a \in 0..1, b \in 0..3 : id \notin alive /\ alive' = alive \cup {id} /\ Log(<< 1, id, a, b >>)
      \/ \E id \in alive, a \in 0..2, b \in 0..2 : UNCHANGED alive /\ Log(<< 2, id, a, b >>)
      \/ \E id \in alive, a \in 0..1, b \in 0..8 : UNCHANGED alive /\ Log(<< 3, id, a, b >>)
Next == (Going /\ Op) \/ (Emit /\ UNCHANGED alive)
Spec == Init /\ [][Next]_<< alive, hist >>
=============================================================================
