----------------------------- MODULE PolyTrace -----------------------------
(* Validates recorded verdicts on polynomials (C02, C04).                   *)
EXTENDS PolyTheory, TraceBase
VARIABLE l
tvars == << rf, re, rk, l >>
TraceInit == l = 1 /\ rf = One /\ re = {} /\ rk = 0
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
P == Set(E.p)
Sets(m) == [i \in 1..Len(m) |-> Set(m[i])]
\* the shift register of the polynomial asked about
Load == /\ rf' = (IF Deg(P) >= 1 THEN P ELSE rf)
        /\ re' = Mod(One, rf')
        /\ rk' = 0
TraceIrred   == IsEvent("irred")   /\ E.r = Irreducible(P) /\ Load
TraceMersenne == IsEvent("mprime") /\ E.r = MersennePrimitive(P) /\ Load
TraceDefault == IsEvent("default") /\ E.r = DefaultCriterion(P, E.deg) /\ E.r2 = E.r /\ Load
TraceFactors == IsEvent("fprime")
                /\ E.zz = FactorCriterion(P, E.deg, Sets(E.es))
                /\ E.str = E.zz /\ E.obj = E.zz /\ E.obj2 = E.zz
                /\ Load
LargeOK      == /\ E.r = HasLargeFactor(P, E.d)
                /\ IF E.r THEN Set(E.after) = LargeFactor(P, E.d) ELSE TRUE
TraceLarge   == IsEvent("factor")  /\ LargeOK /\ Load
TraceNext == TraceIrred \/ TraceMersenne \/ TraceDefault \/ TraceFactors \/ TraceLarge
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
