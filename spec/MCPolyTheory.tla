---------------------------- MODULE MCPolyTheory ----------------------------
EXTENDS PolyTheory
CONSTANT MaxDeg
vars == << rf, re, rk >>
Init == \E p \in PolysUpTo(MaxDeg) : Deg(p) >= 1 /\ rf = p /\ re = Mod(One, p) /\ rk = 0
Next == \/ RegisterStep /\ 0 \in rf /\ Deg(rf) >= 2 /\ rk < 2^Deg(rf) - 1 /\ (rk = 0 \/ re # Mod(One, rf))
        \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars

SmallEs(n) == LET m == 2^n - 1
                  ps == SetToSeq(PrimeDivisors(m))
                  bits(x) == {i \in 0..20 : (x \div 2^i) % 2 = 1}
              IN [i \in 1..Len(ps) |-> bits(m \div ps[i])]
\* Rabin's test is the definition
IrredOK == rk = 0 => (Irreducible(rf) <=> IrreducibleDef(rf))
\* the factor-based test says exactly whether the register has the maximal period:
\* when it stops (returned to 1), the number of steps is 2^n-1 iff rf passed
PrimOK ==
    (rk > 0 /\ re = Mod(One, rf)) => (rk = 2^Deg(rf) - 1 <=> PrimitiveBy(rf, SmallEs(Deg(rf))))
\* irreducible of Mersenne-exponent degree is primitive
MersenneOK == (rk > 0 /\ re = Mod(One, rf) /\ MersennePrimitive(rf)) => rk = 2^Deg(rf) - 1
\* large factors
LargeOK == rk = 0 => \A d \in (Deg(rf) \div 2 + 1)..Deg(rf) :
              /\ HasLargeFactor(rf, d) <=> HasFactorDef(rf, d)
              /\ HasLargeFactor(rf, d) => /\ Divides(LargeFactor(rf, d), rf)
                                         /\ Deg(LargeFactor(rf, d)) = d
=============================================================================
