------------------------------- MODULE GenSimd -------------------------------
(* Sessions with a 128-bit generator: 1 hand out a words, 2 set its modes,      *)
(* 3 ask for the blocks at start a, weight b, accuracy class c (first integer), *)
(* 4 measure all accuracies.                                                    *)
EXTENDS GenBase
Init == GenInit
Op == \/ \E a \in 1..5 : Log(<< 1, 0, a, 0 >>)
      \/ \E a \in 0..3, b \in 1..4 : Log(<< 2, 0, a, b >>)
      \/ \E a \in 0..3, b \in 1..4, c \in 0..3 : Log(<< 3, c, a, b >>)
      \/ \E a \in 0..1 : Log(<< 4, 0, a, 0 >>)
Next == (Going /\ Op) \/ Emit
Spec == Init /\ [][Next]_hist
=============================================================================
