----------------------------- MODULE GenCharpoly -----------------------------
(* Sessions on one machine: 1 place (a: kind of state), 2 generate a times,     *)
(* 3 annihilate (a: kind of polynomial, b: degree class), 4 whole-output        *)
(* polynomial (a: kind of start polynomial).                                    *)
EXTENDS GenBase
VARIABLE x
Init == x = 0 /\ GenInit
Op == \/ \E a \in 0..3 : Log(<< 1, 0, a, 0 >>)
      \/ \E a \in 1..5 : Log(<< 2, 0, a, 0 >>)
      \/ \E a \in 0..6, b \in 0..2 : Log(<< 3, 0, a, b >>)
      \/ \E a \in 0..3 : Log(<< 4, 0, a, 0 >>)
Next == ((Going /\ Op) \/ Emit) /\ UNCHANGED x
Spec == Init /\ [][Next]_<< x, hist >>
=============================================================================
