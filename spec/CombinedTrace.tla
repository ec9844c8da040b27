---------------------------- MODULE CombinedTrace ----------------------------
(* Validates recorded combined searches (C13).                                 *)
EXTENDS Combined, Family, TraceBase
Tm == INSTANCE Temper WITH A <- << >>, C <- << >>, st <- {}, open <- << >>, shifts <- << >>, pats <- << >>, rev <- FALSE
Pa == INSTANCE Parity WITH A <- << >>, C <- << >>, st <- {}, P <- << >>, cert <- {}
VARIABLES l, mach, given    \* mach: the matrices of the family; given: shifts, exponent, kind
tvars == << fam, src, at, held, phase, nolsb, temper, l, mach, given >>
TraceInit == l = 1 /\ fam = << >> /\ src = << >> /\ at = 0 /\ held = 0 /\ phase = "idle" /\ nolsb = FALSE
             /\ temper = << >> /\ mach = << >> /\ given = << >>
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Stay == UNCHANGED << mach, given >>
TraceCombined ==
    /\ IsEvent("combined")
    /\ fam' = TLCEval([i \in 1..Len(E.fam) |->
                 LET g == [A |-> E.fam[i].A, C |-> E.fam[i].C[1], s |-> E.fam[i].s] IN
                 IF E.crit = "reducible" THEN MemberRed(g, E.mexp)
                 ELSE MemberIrr(g, E.crit, [j \in 1..Len(E.es) |-> Set(E.es[j])])])
    /\ mach' = E.fam
    /\ given' = [shifts |-> E.shifts, mexp |-> E.mexp, red |-> E.crit = "reducible"]
    /\ src' = << >> /\ at' = 0 /\ held' = 0 /\ phase' = "idle" /\ nolsb' = FALSE
    /\ temper' = TLCEval(Rows(E.pats))
TraceFeed  == IsEvent("feed") /\ CFeed(E.vs) /\ Stay
TraceBegin == IsEvent("begin") /\ CBegin(E.nolsb) /\ Stay
TraceTry   == IsEvent("try") /\ CTry /\ held' = E.i + 1 /\ Stay
TraceEnter == IsEvent("enter") /\ E.self /\ E.held + 1 = held /\ Rows(E.pats) = temper /\ ~E.rev /\ CEnter(E.step) /\ Stay
TraceLeave == IsEvent("leave") /\ CLeave(TLCEval(Rows(E.pats))) /\ Stay
M  == Rows(mach[held].A)
D  == Tm!TemperRows(Rows(mach[held].C), given.shifts, temper)
W  == Len(mach[held].C)
\* the defect of the generator left behind; part is a state of the maximal-period component
IrrDefect == Tm!Defect(Tm!Dims(M, Tm!TopDown(D), W), Len(M), W)
RedDefect(f, part) ==
    LET o == Tm!OrbitBasis(M, part) IN Tm!Defect(Tm!DimsOn(M, Tm!TopDown(D), W, o), Deg(f), W)
TraceReport ==
    /\ IsEvent("report")
    /\ E.r = TRUE
    /\ E.held + 1 = held /\ Rows(E.pats) = temper /\ ~E.rev
    /\ IF given.red
       THEN LET f == fam[held].factor part == Set(E.part) IN
            /\ Set(E.poly) = f
            /\ part # {} /\ Pa!ApplyPoly(M, f, part) = {}
            /\ E.delta = RedDefect(f, part)
            /\ Set(E.parity) = Set(E.installed)
            /\ Pa!CertifiesByRow(M, Rows(mach[held].P), f, Set(E.parity))
       ELSE /\ Set(E.poly) = fam[held].poly
            /\ E.weight = Cardinality(fam[held].poly)
            /\ E.delta = IrrDefect
    /\ CReport /\ Stay
\* two runs from equal starts, one of them verbose
TraceSame == IsEvent("same") /\ E.x = E.y /\ phase = "idle" /\ UNCHANGED cvars /\ Stay
TraceNext == TraceCombined \/ TraceFeed \/ TraceBegin \/ TraceTry \/ TraceEnter \/ TraceLeave \/ TraceReport \/ TraceSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
