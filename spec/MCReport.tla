------------------------------ MODULE MCReport ------------------------------
(* The run machine of Report on small sources.  Candidates 0..N, any set of them  *)
(* good; commands ask for `count` sets from a start (or for all).  A process that *)
(* passes over exactly what is not good and prints the rest ends, and with the    *)
(* first `count` good candidates; running again agrees; a refused command prints  *)
(* nothing; a seeded source that ignores its seed cannot end a second run.        *)
(* The witnesses of a maximal (not maximal) period decide it for small recursions.*)
EXTENDS Report, BigNat
CONSTANTS N, Runs, MaxCount, Seeds
VARIABLES good, honest, started, last
mvars == << objs, run, seen, good, honest, started, last >>
SmallWF(c) == c.ok
SmallFrom(c) == c.start
SmallCount(c) == c.count
SmallEndless(c) == c.all
SmallKey(c) == << c.prog, c.start, {c.seed}, {}, FALSE, {} >>
SmallLow(x) == x
Cmds == [prog : {"tiny"}, ok : BOOLEAN, start : 0..N, count : 0..MaxCount, all : BOOLEAN, seed : {0}]
        \cup [prog : {"rmt"}, ok : {TRUE}, start : {0}, count : 1..MaxCount, all : {FALSE}, seed : Seeds]
Init == /\ objs = << >> /\ run = Idle /\ seen = << >> /\ started = 0 /\ last = << >>
        /\ good \in SUBSET (0..N) /\ honest \in BOOLEAN
Begin == started < Runs /\ (\E c \in Cmds : Start(c)) /\ started' = started + 1 /\ UNCHANGED last
Step == run.phase = "search" /\ Counting(run.cmd.prog) /\ UNCHANGED << started, last >>
        /\ IF run.at \in good THEN Emit(<< run.at >>, run.at) ELSE Pass(run.at)
Draw == run.phase = "search" /\ ~Counting(run.cmd.prog) /\ UNCHANGED << started, last >>
        /\ Emit(<< IF honest THEN run.cmd.seed ELSE 0, Len(run.lines) >>, 0)
Stop == /\ \E code \in {0, 1}, usage \in BOOLEAN : Finish(code, usage)
        /\ last' = [cmd |-> run.cmd, lines |-> run.lines, refused |-> run.phase = "refuse"] /\ UNCHANGED started
Next == (Begin \/ Step \/ Draw \/ Stop) /\ UNCHANGED << objs, good, honest >>
Spec == Init /\ [][Next]_mvars
Below(k) == {x \in good : x <= k}
Small(a, b) == IF a < b THEN a ELSE b
Want(c) == IF c.all THEN Cardinality(Below(c.start)) ELSE Small(c.count, Cardinality(Below(c.start)))
FirstGood(c) == {x \in Below(c.start) : Cardinality({y \in Below(c.start) : y > x}) < Want(c)}
RunOK == last # << >> =>
    IF last.refused THEN ~last.cmd.ok /\ last.lines = << >>
    ELSE /\ last.cmd.ok
         /\ IF Counting(last.cmd.prog)
            THEN /\ Len(last.lines) = Want(last.cmd)
                 /\ {last.lines[i][1] : i \in 1..Len(last.lines)} = FirstGood(last.cmd)
                 /\ \A i \in 1..(Len(last.lines) - 1) : last.lines[i][1] > last.lines[i + 1][1]
            ELSE Len(last.lines) = last.cmd.count
\* a run can always go on; only a dishonest source gets stuck
Going == run.phase # "idle" => ((ENABLED (Step \/ Draw \/ Stop)) \/ ~honest)
\* after two seeds a dishonest source has been noticed
Noticed == ~honest => Cardinality({k \in DOMAIN seen : k[1] = "rmt" /\ seen[k] # << >>}) <= 1

(* numbers *)
BigOf(x) == FoldLeft(LAMBDA a, b : MulAddSmall(a, 2, IF b \in x THEN 1 ELSE 0), << >>, Down(Deg(x), 0))
Times(a, b) == Norm(FoldLeft(LAMBDA r, i : ShiftAddMul(r, a[i], b), << >>, BDown(Len(a), 1)))
ASSUME Times(BigOf(P641), BigOf(P6700417)) = BigOf({0, 32})
ASSUME Times(BigOf(P274177), BigOf(PBig)) = BigOf({0, 64})
ASSUME \A m \in {1, 2, 4, 8, 16, 32, 64} : Times(BigOf(OverFermat(m)), BigOf({0, m})) = BigOf(Lo(128))
ASSUME FoldLeft(LAMBDA a, m : Times(a, BigOf({0, m})), << 1 >>, << 1, 2, 4, 8, 16, 32, 64 >>) = BigOf(Lo(128))

(* maximal period: every recursion of the Mersenne Twister kind on 5 bits, every state *)
T0 == [u |-> 1, d |-> Lo(2), s |-> 1, b |-> {0}, t |-> 1, c |-> {0}, l |-> 1]
Gens == {[kind |-> "mt", w |-> 2, n |-> 3, r |-> 1, m |-> m, a |-> a, t |-> T0] : m \in 1..2, a \in SUBSET {0, 1}}
SmallStates(G) == {[w |-> w, x |-> {}] : w \in [1..3 -> SUBSET {0, 1}]}
PeriodIs31(G, s) == LET ts == StatesG(G, s, 31)
                        ms == [i \in 1..32 |-> Masked(G, ts[i])]
                    IN ms[32] = ms[1] /\ \A i \in 2..31 : ms[i] # ms[1]
Full(G) == \E p \in SUBSET (0..5), s \in SmallStates(G) : Maximal(G, p, s, FALSE)
ASSUME \A G \in Gens :
    /\ Bits(G) = 5
    /\ Full(G) = (\A s \in SmallStates(G) : ~IsNull(G, s) => PeriodIs31(G, s))
    /\ Full(G) # (\E p \in SUBSET (0..4), s \in SmallStates(G) : NotMaximal(G, p, s))
ASSUME {Full(G) : G \in Gens} = BOOLEAN      \* (both cases occur)
=============================================================================
