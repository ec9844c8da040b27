---------------------------- MODULE MachineTrace ----------------------------
(* Validates recorded minimal-polynomial computations (C01).                *)
EXTENDS Machine, TraceBase
VARIABLE l
tvars == << A, C, st, l >>

TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {}
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Rows(m) == [i \in 1..Len(m) |-> Set(m[i])]
TraceMachine == IsEvent("machine") /\ Build(Rows(Trace[l].A), Rows(Trace[l].C))
TraceMinPoly ==
    /\ IsEvent("minpoly")
    /\ Place(Set(Trace[l].s))
    /\ Set(Trace[l].p) = MinimalPolyOf(A, C[Trace[l].pos + 1], Set(Trace[l].s))
TraceNext == TraceMachine \/ TraceMinPoly
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
