------------------------------- MODULE MTTrace -------------------------------
(* Validates recorded sessions with Mersenne Twister sources (C16).           *)
EXTENDS MT, TraceBase
VARIABLE l
tvars == << objs, l >>
TraceInit == l = 1 /\ objs = << >>
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
KeysOf(e) == IF e.e = "text" THEN [i \in 1..Len(e.codes) |-> << e.codes[i] >>] ELSE e.keys
TraceReset  == IsEvent("reset") /\ objs' = << >>
TraceCreate == IsEvent("new") /\ Create(E.id, E.kind)
TraceSeed   == IsEvent("seed") /\ Seed(E.id, E.kind, E.v)
TraceArray  == (IsEvent("array") \/ IsEvent("text")) /\ SeedArray(E.id, E.kind, KeysOf(E))
TraceRead   == IsEvent("read") /\ Read(E.id, E.port, E.r)
TraceNext == TraceReset \/ TraceCreate \/ TraceSeed \/ TraceArray \/ TraceRead
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
