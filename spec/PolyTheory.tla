----------------------------- MODULE PolyTheory -----------------------------
(***************************************************************************)
(* Which polynomials are irreducible, primitive, of Mersenne-exponent      *)
(* degree, and which have one large irreducible factor.  The associated    *)
(* system is the shift register of a polynomial f: its state is a residue  *)
(* e modulo f, one step multiplies by x.  f is primitive when the register *)
(* started at 1 returns to 1 after exactly 2^deg(f)-1 steps.               *)
(***************************************************************************)
EXTENDS GF2

MersenneExponents ==      \* e with 2^e-1 prime (checked by Lucas-Lehmer in MCMersenne for small e)
    {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253,
     4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091,
     756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011,
     24036583, 25964951}

MersennePrimitive(p) == Deg(p) \in MersenneExponents /\ Irreducible(p)
DefaultCriterion(p, d) == Deg(p) = d /\ Irreducible(p)
\* Es : the numbers (2^d-1)/r for the prime divisors r of 2^d-1
FactorCriterion(p, d, Es) == Deg(p) = d /\ PrimitiveBy(p, Es)

(***************************************************************************)
(* A factor of degree d > deg(p)/2.  Every other irreducible factor has    *)
(* degree at most deg(p)-d < d; removing all of those leaves the factor.   *)
(***************************************************************************)
RECURSIVE DivideOut(_, _)
DivideOut(p, g) == LET c == GCD(p, g) IN IF c = One THEN p ELSE DivideOut(Div(p, c), c)
\* p without its factors of degree dividing i, for i = 1..k
WithoutSmall(p, k) ==
    FoldLeft(LAMBDA r, i : IF Deg(r) < 1 THEN r
                           ELSE LET t == Xor(FrobIter(Mod(XP, r), i, r), Mod(XP, r)) IN
                                IF t = {} THEN One ELSE DivideOut(r, t),
             p, Iota(1, k))
LargeFactor(p, d) == WithoutSmall(p, Deg(p) - d)
HasLargeFactor(p, d) == Deg(p) >= d /\ LET r == LargeFactor(p, d) IN Deg(r) = d /\ Irreducible(r)
HasFactorDef(p, d) == \E g \in PolysUpTo(d) : Deg(g) = d /\ IrreducibleDef(g) /\ Divides(g, p)

VARIABLES rf, re, rk    \* the register: modulus, residue, steps
Register(p)  == rf' = p /\ re' = Mod(One, p) /\ rk' = 0
RegisterStep == re' = Mod(Shift(re, 1), rf) /\ rk' = rk + 1 /\ UNCHANGED rf
=============================================================================
