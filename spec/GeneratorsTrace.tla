--------------------------- MODULE GeneratorsTrace ---------------------------
(* Validates recorded sessions of the shipped generators (C26).                  *)
EXTENDS Generators, TraceBase
VARIABLE l
TraceInit == l = 1 /\ objs = << >>
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Sets(s) == TLCEval([i \in 1..Len(s) |-> Set(s[i])])
Known == E.id \in Ids
TraceReset == IsEvent("reset") /\ objs' = << >>
\* without a parameter set: it is chosen later
TraceNew   == IsEvent("new")  /\ Create(E.id, E.k, E.mexp, Set(E.idn), << >>, << >>, NoWords(TemperWords(E.k)))
TraceMake  == IsEvent("make") /\ Create(E.id, E.k, E.mexp, Set(E.idn), E.i, Sets(E.w), Sets(E.t))
TraceSetUp == IsEvent("setup") /\ Known /\ SetUp(E.id, E.raw)
TracePat   == IsEvent("pattern") /\ Known /\ Pattern(E.id, Set(E.mask), Set(E.pat), E.src)
TracePre   == IsEvent("prefix") /\ Known /\ Prefix(E.id, Set(E.p))
TraceFix   == IsEvent("fix") /\ Known /\ Fix(E.id, IF E.on = 1 THEN E.v ELSE 0)
TraceSeed  == IsEvent("seed") /\ Known /\ SeedAs(E.id, E.v)
TraceGen   == IsEvent("gen") /\ Known /\ Gen(E.id, Sets(E.ws))
TraceCopy  == IsEvent("copy") /\ Known /\ Copy(E.id, E.to)
TraceCert  == IsEvent("certify") /\ Known /\ Certify(E.id, E.j, Set(E.x))
TraceSaid  == IsEvent("said") /\ Known /\ Said(E.id, Sets(E.f))
TraceNext == TraceReset \/ TraceNew \/ TraceMake \/ TraceSetUp \/ TracePat \/ TracePre \/ TraceFix \/ TraceSeed \/ TraceGen \/ TraceCopy \/ TraceCert \/ TraceSaid
TraceSpec == TraceInit /\ [][TraceNext]_<< objs, l >>
=============================================================================
