------------------------------- MODULE Family -------------------------------
(***************************************************************************)
(* What a parameter set of a family of machines gives, computed from its   *)
(* matrices (g.A: rows, g.C: the row of the measured output bit, g.s: the  *)
(* state after seeding).                                                   *)
(***************************************************************************)
EXTENDS GF2
LOCAL Mch == INSTANCE Machine WITH A <- << >>, C <- << >>, st <- {}
LOCAL Pol == INSTANCE PolyTheory WITH rf <- {}, re <- {}, rk <- 0
Rows(m) == TLCEval([i \in 1..Len(m) |-> {m[i][k] : k \in 1..Len(m[i])}])
LOCAL SetOf(x) == {x[k] : k \in 1..Len(x)}
\* a full-degree minimal polynomial is the characteristic polynomial
MemberIrr(g, crit, es) ==
    LET M == Rows(g.A)
        p == Mch!MinimalPolyOf(M, SetOf(g.C), SetOf(g.s))
        n == Len(M)
    IN [ok |-> IF crit = "default" THEN Pol!DefaultCriterion(p, n) ELSE Pol!FactorCriterion(p, n, es),
        poly |-> p, factor |-> {}]
MemberRed(g, mexp) ==
    LET p == Mch!MinimalPolyOf(Rows(g.A), SetOf(g.C), SetOf(g.s))
        ok == Pol!HasLargeFactor(p, mexp)
    IN [ok |-> ok, poly |-> p, factor |-> IF ok THEN Pol!LargeFactor(p, mexp) ELSE {}]
=============================================================================
