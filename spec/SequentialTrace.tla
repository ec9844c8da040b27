--------------------------- MODULE SequentialTrace ---------------------------
EXTENDS Sequential, TraceBase
VARIABLE l
tvars == << objs, l >>
TraceInit == l = 1 /\ objs = << >>
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
TraceReset  == IsEvent("reset") /\ objs' = << >>
TraceCreate == IsEvent("new") /\ E.bits = E.w /\ Create(E.id, E.w, Set(E.mask), IF E.seeded THEN Set(E.start) ELSE AllOnes(E.w))
TraceCopy   == IsEvent("copy") /\ CopyOf(E.id, E.from)
TraceSeed   == IsEvent("seed") /\ Reseed(E.id, Set(E.v))
TraceGiven  == IsEvent("read") /\ E.ok /\ Set(E.r) = Given(E.id, E.port) /\ ReadOK(E.id)
TraceRefuse == IsEvent("read") /\ ~E.ok /\ ReadRefused(E.id)
TraceNext == TraceReset \/ TraceCreate \/ TraceCopy \/ TraceSeed \/ TraceGiven \/ TraceRefuse
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
