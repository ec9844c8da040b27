----------------------------- MODULE LintestTrace -----------------------------
(* Validates recorded verdicts of the linearity tester (C15).                    *)
EXTENDS Lintest, TraceBase
VARIABLE l
tvars == << A, C, st, dev, join, l >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {} /\ dev = << >> /\ join = "xor"
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Rows(m) == [i \in 1..Len(m) |-> Set(m[i])]
TraceGiven == IsEvent("given") /\ A' = TLCEval(Rows(E.A)) /\ C' = TLCEval(Rows(E.C)) /\ st' = Set(E.s)
              /\ dev' = E.dev /\ join' = E.join
TraceTest == IsEvent("test") /\ E.r = Verdict(Set(E.s1), Set(E.s2))
             /\ Set(E.s) = st /\ E.n = E.n0
             /\ UNCHANGED << A, C, st, dev, join >>
\* a shipped generator (linear by C20)
TraceShipped == IsEvent("shipped") /\ E.r = TRUE /\ E.before = E.after /\ UNCHANGED << A, C, st, dev, join >>
TraceNext == TraceGiven \/ TraceTest \/ TraceShipped
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
