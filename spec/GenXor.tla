------------------------------- MODULE GenXor -------------------------------
(* Sessions with three xorshift128 objects: 1 seed (a: value class), 2 key array *)
(* (a: length class, b: value class), 3 generate a words, 4 look at the state.   *)
EXTENDS GenBase
VARIABLE live
Init == live = {} /\ GenInit
Ids == 1..3
Op == \/ \E o \in Ids, a \in 0..4 : Log(<< 1, o, a, 0 >>) /\ live' = live \cup {o}
      \/ \E o \in Ids, a \in 0..4, b \in 0..3 : Log(<< 2, o, a, b >>) /\ live' = live \cup {o}
      \/ \E o \in live, a \in 1..9 : Log(<< 3, o, a, 0 >>) /\ UNCHANGED live
      \/ \E o \in live : Log(<< 4, o, 0, 0 >>) /\ UNCHANGED live
Next == (Going /\ Op) \/ (Emit /\ UNCHANGED live)
Spec == Init /\ [][Next]_<< live, hist >>
=============================================================================
