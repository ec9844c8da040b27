------------------------------- MODULE GenLin -------------------------------
(* Histories over four objects of one generator: <<code, object, a, b>>.         *)
(* 1 start (a: which seed or unit bit), 2 generate a times, 3 add object a,       *)
(* 4 clone into object a, 5 clear, 6 zero test, 7 truncated read (a: length       *)
(* class), 8 reversal on/off, 9 combination by a polynomial (a: seed, b: class),  *)
(* 10 add twice, 11 reverse, clone,         *)
(* read both.  Zero tests are asked in every state of affairs.                 *)
EXTENDS GenBase
Objs == 1..4
Init == GenInit
Op == \/ \E o \in Objs, a \in 1..5 : Log(<< 1, o, a, 0 >>)
      \/ \E o \in Objs, a \in 1..4 : Log(<< 2, o, a, 0 >>)
      \/ \E o \in Objs, a \in Objs : Log(<< 3, o, a, 0 >>)
      \/ \E o \in Objs, a \in Objs : o # a /\ Log(<< 4, o, a, 0 >>)
      \/ \E o \in Objs : Log(<< 5, o, 0, 0 >>)
      \/ \E o \in Objs, k \in 1..3 : Log(<< 6, o, k, 0 >>)
      \/ \E o \in Objs, a \in 0..4 : Log(<< 7, o, a, 0 >>)
      \/ \E o \in Objs, a \in 0..1 : Log(<< 8, o, a, 0 >>)
      \/ \E o \in Objs, a \in 1..3, b \in 0..2 : Log(<< 9, o, a, b >>)
      \/ \E o \in Objs, a \in Objs : Log(<< 10, o, a, 0 >>)
      \/ \E o \in Objs, a \in Objs : o # a /\ Log(<< 11, o, a, 0 >>)
Next == (Going /\ Op) \/ Emit
Spec == Init /\ [][Next]_hist
=============================================================================
