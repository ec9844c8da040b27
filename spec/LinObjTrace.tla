----------------------------- MODULE LinObjTrace -----------------------------
(* Validates recorded histories of the shipped generators (C20).                *)
EXTENDS LinObj, TraceBase
VARIABLES strict, horizon, l
tvars == << obj, rev, base, W, strict, horizon, l >>
TraceInit == l = 1 /\ obj = << >> /\ rev = << >> /\ base = << >> /\ W = 0 /\ strict = FALSE /\ horizon = 0
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Same == UNCHANGED << strict, horizon >>
Words(s) == [i \in 1..Len(s) |-> Set(s[i])]
\* four objects; the bases arrive before they are used
TraceMachine == IsEvent("machine") /\ obj' = [o \in 1..4 |-> {}] /\ rev' = [o \in 1..4 |-> FALSE] /\ base' = << >>
                /\ W' = E.w /\ strict' = E.strict /\ horizon' = E.h
TraceBase1 == IsEvent("base") /\ base' = TLCEval(Append(base, Words(E.outs))) /\ UNCHANGED << obj, rev, W >> /\ Same
\* h outputs determine the state: the windows of one future span the n dimensions
TraceObservable ==
    IsEvent("observable")
    /\ LET b == base[E.b]
           Win(i) == UNION {{p + k * W : p \in b[i + k + 1]} : k \in 0..(horizon - 1)}
       IN (RankOf([i \in 1..E.n |-> Win(i - 1)]) = E.n)
    /\ strict' = TRUE /\ UNCHANGED << obj, rev, base, W, horizon >>
\* setting one bit: the trajectories of the unit states are linearly independent
TraceBasis ==
    IsEvent("basis")
    /\ LET Win(o) == UNION {{p + k * W : p \in Set(o[k + 1])} : k \in 0..(Len(o) - 1)}
       IN RankOf([i \in 1..Len(E.units) |-> Win(E.units[i])]) = E.n
    /\ Len(E.units) = E.n
    /\ UNCHANGED linvars /\ Same
TraceSeed  == IsEvent("seed") /\ Start(E.o, E.b) /\ Same
TraceGen   == IsEvent("gen") /\ Set(E.w) = Output(obj[E.o]) /\ Step(E.o) /\ Same
TraceRead  == IsEvent("read") /\ Set(E.w) = Leading(Output(obj[E.o]), E.n, rev[E.o]) /\ Step(E.o) /\ Same
TraceAdd   == IsEvent("add") /\ Add(E.o, E.p) /\ Same
TraceClone == IsEvent("clone") /\ Clone(E.o, E.p) /\ Same
TraceClear == IsEvent("clear") /\ Clear(E.o) /\ Same
TraceRev   == IsEvent("rev") /\ Flip(E.o, E.r) /\ Same
TraceComb  == IsEvent("combine") /\ Combine(E.o, E.b, Set(E.p)) /\ Same
TraceZero  == IsEvent("zero") /\ ZeroOK(obj[E.o], E.r, strict, horizon) /\ UNCHANGED linvars /\ Same
TraceFate  == IsEvent("fate") /\ FateOK(Words(E.outs), E.r, strict) /\ UNCHANGED linvars /\ Same
TraceNext == TraceMachine \/ TraceBase1 \/ TraceObservable \/ TraceBasis \/ TraceSeed \/ TraceGen \/ TraceRead \/ TraceAdd
             \/ TraceClone \/ TraceClear \/ TraceRev \/ TraceComb \/ TraceZero \/ TraceFate
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
