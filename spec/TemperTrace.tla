----------------------------- MODULE TemperTrace -----------------------------
(* Validates recorded tempering searches (C11, C12).                          *)
EXTENDS Temper, TraceBase
VARIABLE l
tvars == << A, C, st, open, shifts, pats, rev, l >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {} /\ open = << >> /\ shifts = << >> /\ pats = << >> /\ rev = FALSE
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Rows(m) == [i \in 1..Len(m) |-> Set(m[i])]
TraceGiven ==        \* the generator handed to the search
    /\ IsEvent("given")
    /\ A' = TLCEval(Rows(E.A)) /\ C' = TLCEval(Rows(E.C)) /\ st' = Set(E.s)
    /\ shifts' = E.shifts /\ pats' = TLCEval(Rows(E.pats)) /\ rev' = E.rev /\ open' = << >>
TraceBlock ==
    /\ IsEvent("block")
    /\ LET blk == BlockBits(E.lo, E.hi, E.lsb, Len(C)) IN Decide(E.i, blk, E.lsb, Set(E.p))
TraceLevels ==
    /\ IsEvent("levels")
    /\ LET none == [i \in 1..Len(shifts) |-> {}]
           S == FoldLeft(LAMBDA acc, v : LevelSurvivors(A, C, acc, v, shifts), {none}, Iota(0, E.limit - 1))
           final == Rows(E.pats)
       IN /\ Effective(final, shifts) \in S
          /\ pats' = final
    /\ UNCHANGED << A, C, st, open, shifts, rev >>
\* what the search left behind
TraceLeft ==
    /\ IsEvent("left")
    /\ Rows(E.pats) = pats /\ Rows(E.active) = pats
    /\ Set(E.s) = st /\ E.rev = FALSE /\ rev' = FALSE /\ E.tries = 0
    /\ UNCHANGED << A, C, st, open, shifts, pats >>
TraceNext == TraceGiven \/ TraceBlock \/ TraceLevels \/ TraceLeft
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
