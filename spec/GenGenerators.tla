---------------------------- MODULE GenGenerators ----------------------------
(* Sessions with three objects of one kind of generator: <<code, object, a, b>>.  *)
(* 1 new object, parameters from a source (a: source class), 2 object from a      *)
(* parameter set (a: class), 3 seed (a: class), 4 generate a words, 5 tempering   *)
(* pattern (a: which word, b: class), 6 copy to object a, 7 what the parameter    *)
(* string says, 8 certification vector, 9 draw parameters again.                  *)
EXTENDS GenBase
Objs == 1..3
Init == GenInit
Op == \/ \E o \in Objs, a \in 0..3 : Log(<< 1, o, a, 0 >>)
      \/ \E o \in Objs, a \in 0..3 : Log(<< 2, o, a, 0 >>)
      \/ \E o \in Objs, a \in 0..3 : Log(<< 3, o, a, 0 >>)
      \/ \E o \in Objs, a \in {1, 2, 7, 24} : Log(<< 4, o, a, 0 >>)
      \/ \E o \in Objs, a \in 0..3, b \in 0..2 : Log(<< 5, o, a, b >>)
      \/ \E o \in Objs, a \in Objs : o # a /\ Log(<< 6, o, a, 0 >>)
      \/ \E o \in Objs : Log(<< 7, o, 0, 0 >>)
      \/ \E o \in Objs : Log(<< 8, o, 0, 0 >>)
      \/ \E o \in Objs, a \in 0..3 : Log(<< 9, o, a, 0 >>)
Next == (Going /\ Op) \/ Emit
Spec == Init /\ [][Next]_hist
=============================================================================
