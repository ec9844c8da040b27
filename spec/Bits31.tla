------------------------------- MODULE Bits31 -------------------------------
(* Bitwise operations on non-negative integers. *)
LOCAL INSTANCE Bitwise
AndI(a, b) == a & b
XorI(a, b) == a ^^ b
=============================================================================
