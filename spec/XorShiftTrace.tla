---------------------------- MODULE XorShiftTrace ----------------------------
(* Validates recorded sessions with the xorshift128 library (C24).              *)
EXTENDS XorShift, TraceBase
VARIABLE l
tvars == << xs, l >>
R == XKind("real")
TraceInit == l = 1 /\ xs = << >>
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
\* the state shown after an initialisation is the specified one, and not zero
Shown(id) == xs'[id] = E.s /\ ~IsZeroState(R, E.s)
TraceReset == IsEvent("reset") /\ xs' = << >>
TraceSeed  == IsEvent("seed") /\ Seed(R, E.id, E.v) /\ Shown(E.id)
TraceArray == IsEvent("array") /\ Array(R, E.id, E.keys) /\ Shown(E.id)
TraceGen   == IsEvent("gen") /\ Gen(R, E.id, E.w)
TraceState == IsEvent("state") /\ E.id \in Ids /\ xs[E.id] = E.s /\ UNCHANGED xs
TraceNext == TraceReset \/ TraceSeed \/ TraceArray \/ TraceGen \/ TraceState
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
