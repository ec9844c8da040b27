---------------------------- MODULE FactorsTrace ----------------------------
(* Validates the shipped tables and the exponent query (C03).               *)
EXTENDS Factors, TraceBase
VARIABLE l
tvars == << rem, struck, l >>
TraceInit == l = 1 /\ rem = << 1 >> /\ struck = {}
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
TraceTable == IsEvent("table") /\ Complete /\ Start(E.N)
TracePrime == IsEvent("prime") /\ E.digits /\ Strike(E.p)
TraceDone  == IsEvent("done") /\ Complete /\ Len(Trace) >= 1 /\ UNCHANGED fvars
\* every e in lo..hi was asked; yes lists the accepted ones
TraceRange == IsEvent("mexp") /\ ToSet(E.yes) = {x \in MersenneExponents : E.lo <= x /\ x <= E.hi}
              /\ UNCHANGED fvars
TraceLater == IsEvent("later") /\ ToSet(E.yes) \subseteq LaterMersenneExponents /\ UNCHANGED fvars
TraceNext == TraceTable \/ TracePrime \/ TraceDone \/ TraceRange \/ TraceLater
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
