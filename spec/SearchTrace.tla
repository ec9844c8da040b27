------------------------------ MODULE SearchTrace ------------------------------
(* Validates recorded searches (C05: irreducible, C06: reducible generators).   *)
(* What each member of the family gives is computed here from its matrices.     *)
EXTENDS Search, Family, TraceBase
VARIABLE l
tvars == << fam, src, at, count, held, run, l >>
TraceInit == l = 1 /\ fam = << >> /\ src = << >> /\ at = 0 /\ count = 0 /\ held = 0 /\ run = Idle
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
TraceSearch == IsEvent("search")
    /\ NewSearch(TLCEval([i \in 1..Len(E.fam) |->
          IF E.crit = "reducible" THEN MemberRed(E.fam[i], E.mexp)
          ELSE MemberIrr(E.fam[i], E.crit, [j \in 1..Len(E.es) |-> Set(E.es[j])])]))
TraceFeed  == IsEvent("feed") /\ Feed(E.vs)
TraceStart == IsEvent("start") /\ Start(E.t)
TraceTry   == IsEvent("try") /\ Try /\ held' = E.i + 1
Reported == /\ E.count = count
            /\ IF held > 0 THEN E.held = held - 1 /\ E.param = E.held ELSE TRUE
            /\ IF E.r THEN /\ Set(E.poly) = fam[held].poly
                           /\ Set(E.factor) = fam[held].factor
               ELSE TRUE
TraceEnd   == IsEvent("end") /\ Reported /\ Finish(E.r)
TraceNext == TraceSearch \/ TraceFeed \/ TraceStart \/ TraceTry \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
