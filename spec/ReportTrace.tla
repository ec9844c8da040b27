----------------------------- MODULE ReportTrace -----------------------------
(* Validates recorded runs of the search programs (C25).                          *)
EXTENDS Report, TraceBase
VARIABLES l,
          told,      \* sets described so far: << program, numbers >>
          passed     \* candidates of counting sources shown not to qualify
tvars == << objs, run, seen, l, told, passed >>
TraceInit == l = 1 /\ objs = << >> /\ run = Idle /\ seen = << >> /\ told = {} /\ passed = {}
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Sets(s) == TLCEval([i \in 1..Len(s) |-> Set(s[i])])
ArgsOf(s) == TLCEval([i \in 1..Len(s) |-> [o |-> s[i].o, k |-> s[i].k, v |-> Set(s[i].v)]])
CmdOf == [prog |-> E.prog, opts |-> ArgsOf(E.opts), pos |-> ArgsOf(E.pos)]
StateOf(w, x) == [w |-> Sets(w), x |-> Set(x)]

TraceReset == IsEvent("reset") /\ run' = Idle /\ seen' = << >> /\ told' = {} /\ passed' = {}
TraceCmd == IsEvent("cmd") /\ Start(CmdOf) /\ UNCHANGED << told, passed >>
TracePrint ==
    /\ IsEvent("print") /\ run.phase = "search"
    /\ LET f == Sets(E.f) IN
       /\ E.to = (IF ToFile(run.cmd) THEN "file" ELSE "out")
       /\ Counting(run.cmd.prog) => E.n >= 0
       /\ run.cmd.prog = "tiny" => E.n = run.at
       /\ Belongs(run.cmd, f, E.n, Len(run.lines))
       /\ run.cmd.prog = "tiny" => DeltaOf(run.cmd.prog, f) <= MaxDelta(run.cmd)
       /\ Emit(f, E.n)
    /\ UNCHANGED << told, passed >>

Who == << run.cmd.prog, IdOf(run.cmd), E.n >>
\* an earlier run of the same search printed candidate n with a defect this run does not accept
TooLarge(c, n) ==
    \E k \in DOMAIN seen : /\ k[1] = c.prog /\ k[2] = c.pos
                           /\ \E i \in 1..Len(seen[k]) : seen[k][i][1] = n /\ DeltaOf(c.prog, seen[k][i][2]) > MaxDelta(c)
NoGood(n) ==
    CASE E.why = "again" -> Who \in passed
      [] E.why = "base"  -> run.phase = "search" /\ run.cmd.prog = "tiny" /\ TooLarge(run.cmd, n)
      [] E.why = "red"   -> NotMaximal(CandGen(run.cmd, n), Set(E.p), StateOf(E.w, E.x))
      [] E.why = "order" -> Annuls(CandGen(run.cmd, n), Set(E.p), StateOf(E.w, E.x)) /\ ShortOrder128(Set(E.p), Set(E.E))
      [] OTHER -> FALSE
\* xorshift listings: the candidate is not in the listing either
NotListed(n) == run.phase = "search" \/ ~\E i \in 1..Len(Listed(KeyOf(run.cmd))) : Listed(KeyOf(run.cmd))[i][1] = n
TraceSkip ==
    /\ IsEvent("skip") /\ Pass(E.n) /\ NotListed(E.n) /\ NoGood(E.n)
    /\ passed' = IF E.why \in {"red", "order"} THEN passed \cup {Who} ELSE passed
    /\ UNCHANGED told
TraceEnd ==
    /\ IsEvent("end") /\ run.phase \in {"search", "refuse"}
    /\ E.stray = 0 /\ E.late = FALSE
    /\ run.cmd.prog \notin {"xs3", "xs4"} => \A i \in 1..Len(run.lines) : << run.cmd.prog, run.lines[i][2] >> \in told
    /\ IF run.cmd.prog \in {"xs3", "xs4"} THEN FinishListing(E.code) ELSE Finish(E.code, E.usage)
    /\ UNCHANGED << told, passed >>
\* a window of a listing
TraceScan == IsEvent("scan") /\ Scan(CmdOf, E.n) /\ UNCHANGED << told, passed >>
TraceListed ==
    /\ IsEvent("listed") /\ run.phase = "scan" /\ E.n = run.at
    /\ LET ls == Listed(KeyOf(run.cmd)) IN \E i \in 1..Len(ls) : ls[i] = << E.n, Sets(E.f) >>
    /\ run' = [run EXCEPT !.at = @ - 1, !.lines = Append(@, << E.n, Sets(E.f) >>)]
    /\ UNCHANGED << seen, told, passed >>
TraceEndScan ==
    /\ IsEvent("endscan") /\ EndScan(E.n)
    /\ \A i \in 1..Len(run.lines) : << run.cmd.prog, run.lines[i][2] >> \in told
    /\ UNCHANGED << told, passed >>

(* The description of the set printed last is true. *)
F == run.lines[Len(run.lines)][2]
S0 == StateOf(E.w, E.x)
P == Set(E.p)
Irr(p) == E.irr /\ Deg(p) > 128
Spots(os, w, d) == \A j \in 1..Len(E.vs) : E.ks[E.vs[j]] = DimAt(os, w, d, E.vs[j])
SpotsL(os, d, ks, vs, L, stride, top) == \A j \in 1..Len(vs) : ks[vs[j]] = SimdAt(os, d, L, stride, top, vs[j])
True(k, f, G, s0, p) ==
    CASE k \in {"tiny", "mt2", "mtgp", "xs3", "xs4"} ->
           LET d == Bits(G) IN
           /\ Len(E.ks) = 32
           /\ Maximal(G, p, s0, Irr(p))
           /\ k \in {"xs3", "xs4"} => MaxOrder128(p)
           /\ k = "tiny" => p = f[1]
           /\ k \in {"tiny", "mtgp"} => f[Len(f) - 1] = Num(Cardinality(p))
           /\ Num(DefectOf(E.ks, d)) = (IF k \in {"xs3", "xs4"} THEN f[1] ELSE f[Len(f)])
           /\ k = "mtgp" => f[14] = (G.r)..31
           /\ \A os \in {IF k = "mtgp" THEN << >> ELSE Outs(G, s0, 2 * d)} : k # "mtgp" => Spots(os, 32, d)
      [] k \in {"rmt", "sfmt", "dsfmt"} ->
           LET d == MexpOf(run.cmd)
               q == Set(E.q)
               parity == CASE k = "rmt" -> f[4] [] k = "sfmt" -> LanesUp(SubSeq(f, 11, 14), 32) [] OTHER -> LanesUp(SubSeq(f, 8, 9), 64)
           IN
           /\ Proper(G, s0)
           /\ Deg(p) = d /\ HasFactor(G, p, q, s0, Irr(p))
           /\ CertifiesLine(G, p, s0, parity, Bits(G) - d + 2)
           /\ CASE k = "rmt" -> Len(E.ks) = 64 /\ f[7] = Num(DefectOf(E.ks, d))
                [] k = "sfmt" ->
                     /\ Len(E.ks32) = 32 /\ Len(E.ks64) = 64 /\ Len(E.ks) = 128
                     /\ << f[15], f[16], f[17] >> = << Num(DefectOf(E.ks32, d)), Num(DefectOf(E.ks64, d)), Num(DefectOf(E.ks, d)) >>
                [] OTHER -> Len(E.ks) = 52 /\ f[10] = Num(DefectOf(E.ks, d))
           /\ \A os \in {Outs(G, PolyOn(G, q, s0), 2 * d + 4)} :        \* (bound by \A: evaluated once)
                CASE k = "rmt" -> Spots(os, 64, d)
                  [] k = "sfmt" ->
                       /\ Spots(os, 128, d)
                       /\ SpotsL(os, d, E.ks64, E.vs64, 2, 64, 63)
                       /\ SpotsL(os, d, E.ks32, E.vs32, 4, 32, 31)
                  [] OTHER -> SpotsL(os, d, E.ks, E.vs, 2, 64, 51)
TraceDescribe ==
    /\ IsEvent("describe") /\ run.phase \in {"search", "scan"} /\ run.lines # << >>
    /\ E.prog = run.cmd.prog
    \* (bound by \A: evaluated once)
    /\ \A f \in {F} : \A G \in {OfLine(E.prog, f)} : \A s0 \in {S0} : \A p \in {P} : True(E.prog, f, G, s0, p)
    /\ told' = told \cup {<< E.prog, F >>}
    /\ UNCHANGED << run, seen, passed >>

(* Programs about one generator. *)
TracePeriod ==
    /\ IsEvent("period") /\ E.code = 0
    /\ LET G == Real(E.prog, << >>, << >>) IN
       /\ Annuls(G, P, S0) /\ Deg(P) = 128 /\ E.degree = 128
       /\ E.full = (Irreducible(P) /\ MaxOrder128(P))
    /\ UNCHANGED << run, seen, told, passed >>
TraceTable ==
    /\ IsEvent("table") /\ E.code = 0
    /\ LET G == Real(E.prog, << >>, << >>) IN
       /\ (Annuls(G, P, S0) /\ Deg(P) = 128 /\ Irreducible(P)) = TRUE
       /\ Len(E.ks) = 32
       /\ \A os \in {Outs(G, S0, 256)} : E.ks = [v \in 1..32 |-> DimAt(os, 32, 128, v)]
       /\ E.ds = [v \in 1..32 |-> (128 \div v) - E.ks[v]]
       /\ E.sum = DefectOf(E.ks, 128)
    /\ UNCHANGED << run, seen, told, passed >>
Event == TraceReset \/ TraceCmd \/ TracePrint \/ TraceSkip \/ TraceEnd \/ TraceScan \/ TraceListed \/ TraceEndScan
             \/ TraceDescribe \/ TracePeriod \/ TraceTable
TraceNext == Event /\ UNCHANGED objs
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
