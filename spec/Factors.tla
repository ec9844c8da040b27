------------------------------ MODULE Factors ------------------------------
(***************************************************************************)
(* Accounting for the prime divisors of 2^N-1: the system starts with the  *)
(* whole number and strikes out one listed prime (with its multiplicity)   *)
(* per step; a table is complete and correct when it can be run from       *)
(* Start to a remainder of 1.                                              *)
(***************************************************************************)
EXTENDS BigNat
VARIABLES rem, struck     \* remaining cofactor; primes already used
fvars == << rem, struck >>

RECURSIVE StrikeOut(_, _)
StrikeOut(n, p) == LET d == DivModBig(n, p) IN IF d[2] = << >> THEN StrikeOut(d[1], p) ELSE n
Start(N)  == rem' = MersenneNumber(N) /\ struck' = {}
Strike(p) ==
    /\ p # << >> /\ p # << 1 >>
    /\ p \notin struck
    /\ IsPrimeBig(p)
    /\ ModBig(rem, p) = << >>
    /\ rem' = StrikeOut(rem, p)
    /\ struck' = struck \cup {p}
Complete  == rem = << 1 >>

\* exponents of Mersenne primes
MersenneExponents ==
    {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253,
     4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091,
     756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011,
     24036583, 25964951}
\* the ones known beyond the largest exponent of the library; an answer true there has to be one of these
LaterMersenneExponents ==
    {30402457, 32582657, 37156667, 42643801, 43112609, 57885161, 74207281, 77232917,
     82589933, 136279841}
=============================================================================
