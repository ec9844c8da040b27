------------------------------ MODULE EquiTrace ------------------------------
(* Validates recorded equidistribution queries (C08, C09, C10).               *)
EXTENDS Equi, TraceBase
VARIABLE l
tvars == << A, C, st, open, l >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {} /\ open = << >>
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Rows(m) == [i \in 1..Len(m) |-> Set(m[i])]
TraceMachine == IsEvent("machine") /\ Build(TLCEval(Rows(E.A)), TLCEval(Rows(E.C))) /\ open' = << >>
TracePlace == IsEvent("place") /\ Place(Set(E.s)) /\ UNCHANGED open
TraceGen == IsEvent("gen") /\ Generate(Set(E.w)) /\ UNCHANGED open
TraceOpen == IsEvent("open") /\ Ask(E.q, E.v, E.d)
TraceAll == IsEvent("all") /\ AnswerAll(E.q, E.ks, E.sum)
TraceOne == IsEvent("one") /\ AnswerOne(E.q, E.kv, E.sum)
\* a shipped generator, known by its outputs before and after the query
TraceShipped ==
    /\ IsEvent("shipped")
    /\ LET n == E.n
           outs == TLCEval([i \in 1..Len(E.outs) |-> Set(E.outs[i])])
           p == TLCEval(OutsPoly(outs, E.w))
           ks == TLCEval(OutsDims(outs, n, E.w))
       IN /\ Deg(p) = n /\ Irreducible(p)
          /\ E.ks = ks /\ E.sum = Defect(ks, n, E.w)
          /\ E.kv = ks[E.v] /\ E.sumv = Defect(ks, n, E.v - 1)
          /\ E.after = E.outs
    /\ UNCHANGED << A, C, st, open >>
\* the part of a reducible generator that belongs to the factor f; outs follow the present state
PartOK(outs) ==
    LET f  == Set(E.f)
        G  == TLCEval(OutsPoly(outs, E.w))
        po == PartOuts(outs, f, E.w)
        T  == OutsTable(po, Deg(f), E.w)
        top == TLCEval(DimsOf(T, Deg(f), E.v))
    IN /\ Divides(f, G) /\ Irreducible(f) /\ ~Divides(f, Div(G, f))
       /\ E.ks = top /\ E.sum = Defect(top, E.d, E.v)
       /\ E.kv = top[E.v] /\ E.sumv = Defect(top, E.d, E.v - 1)
TracePart ==        \* the machine is known; it must not have moved
    /\ IsEvent("part")
    /\ LET ss == TLCEval(StatesAfter(A, st, 3 * Len(A)))
       IN PartOK(TLCEval([i \in 1..Len(ss) |-> Out(ss[i])]))
    /\ st = Set(E.s)
    /\ UNCHANGED evars
TracePartShipped ==
    /\ IsEvent("partshipped")
    /\ PartOK(TLCEval([i \in 1..Len(E.outs) |-> Set(E.outs[i])]))
    /\ E.after = E.outs
    /\ UNCHANGED evars
TraceNext == TraceMachine \/ TracePlace \/ TraceGen \/ TraceOpen \/ TraceAll \/ TraceOne
             \/ TraceShipped \/ TracePart \/ TracePartShipped
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
