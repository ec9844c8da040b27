---------------------------- MODULE GenSequential ----------------------------
(* Behaviours of up to three sources for replay.  An operation is            *)
(* <<code, id, a, b>>: 1 create (a: form 0 default 1 mask 2 mask+start,       *)
(* b: narrow/wide), 2 copy of a, 3 re-seed (a: which routine, b: how far),    *)
(* 4 read (a: port).                                                          *)
EXTENDS Sequential, GenBase
Small == {{}, {0}, {1}, {0, 1}, {2}}
StartOf(b) == IF b = 0 THEN {} ELSE IF b = 1 THEN {0} ELSE IF b = 2 THEN {0, 1} ELSE {1, 2}
Init == objs = << >> /\ GenInit
Op ==
    \/ \E id \in 1..3, f \in 0..2, b \in 0..1 : id \notin Ids /\ Create(id, 4, {}, IF f = 2 THEN {1} ELSE AllOnes(4)) /\ Log(<< 1, id, f, b >>)
    \/ \E id \in 1..3, from \in Ids : id # from /\ CopyOf(id, from) /\ Log(<< 2, id, from, 0 >>)
    \/ \E id \in Ids, a \in 0..2, b \in 0..3 : Reseed(id, StartOf(b)) /\ Log(<< 3, id, a, b >>)
    \/ \E id \in Ids, a \in 0..2, k \in 1..8 : (ReadOK(id) \/ ReadRefused(id)) /\ Log(<< 4, id, a, 0 >>)
Next == (Going /\ Op) \/ (Emit /\ UNCHANGED objs)
Spec == Init /\ [][Next]_<< objs, hist >>
=============================================================================
