----------------------------- MODULE SimdTrace -----------------------------
(* Validates recorded measurements of 128-bit generators (C21, C22).          *)
EXTENDS Simd, TraceBase
VARIABLES own, l
tvars == << A, C, st, open, outs, dim, lanes, pos, smode, wmode, prev, tab, own, l >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {} /\ open = << >> /\ outs = << >> /\ dim = 0 /\ lanes = 0
             /\ pos = 0 /\ smode = 0 /\ wmode = 0 /\ prev = {} /\ tab = << >> /\ own = 0
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1 /\ UNCHANGED evars
E == Trace[l]
TraceLoad ==
    /\ IsEvent("stream")
    /\ LET os == TLCEval([i \in 1..Len(E.outs) |-> Set(E.outs[i])])
           f  == Set(E.f)
       IN /\ Deg(f) = E.d /\ Irreducible(f) /\ 0 \in f /\ Fits(os, f)
          /\ Load(os, E.d, E.lanes, 0, E.sm, E.wm, RunTable(os, E.d, E.lanes, E.stride, E.top, E.lsb, E.vmax))
    /\ own' = E.own
TraceGen     == IsEvent("gen") /\ GenWord(own, 128 \div own, Set(E.w)) /\ UNCHANGED own
TraceModes   == IsEvent("modes") /\ SetModes(E.sm, E.wm) /\ UNCHANGED own
TraceBlocks  == IsEvent("blocks") /\ BlockQuery(E.v, E.s, E.n) /\ UNCHANGED own
TraceMeasure == IsEvent("measure") /\ Measure(E.vmax, E.mexp, E.ks, E.sum) /\ UNCHANGED own
TraceNext == TraceLoad \/ TraceGen \/ TraceModes \/ TraceBlocks \/ TraceMeasure
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
