---------------------------- MODULE CharpolyTrace ----------------------------
(* Validates recorded whole-output polynomials and annihilations (C07).       *)
EXTENDS Charpoly, TraceBase
VARIABLE l
tvars == << A, C, st, l >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {}
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Rows(m) == [i \in 1..Len(m) |-> Set(m[i])]
TraceMachine == IsEvent("machine") /\ Build(TLCEval(Rows(E.A)), TLCEval(Rows(E.C)))
TracePlace == IsEvent("place") /\ Place(Set(E.s))
\* the generator's state afterwards is wherever the measurement left it
TraceChar == IsEvent("chr") /\ Set(E.p) = Accumulate(A, C, st, Set(E.p0)) /\ UNCHANGED << A, C, st >>
TraceAnnih == IsEvent("annih") /\ Annihilate(Set(E.p)) /\ st' = Set(E.s)
TraceGen == IsEvent("gen") /\ Generate(Set(E.w))
TraceNext == TraceMachine \/ TracePlace \/ TraceChar \/ TraceAnnih \/ TraceGen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
