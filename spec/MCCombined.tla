----------------------------- MODULE MCCombined -----------------------------
(* All families of two or three sets, all sources up to a length, two runs on *)
(* the same source (one of them measuring in between), all step functions on   *)
(* three temperings.                                                           *)
EXTENDS Combined, FiniteSets
CONSTANT MaxLen
VARIABLES fl, fm,      \* what the two steps do to a tempering
          runs, log, res, chatty
vars == << fam, src, at, held, phase, nolsb, temper, fl, fm, runs, log, res, chatty >>
T == 0..1
Init == /\ fam \in UNION {[1..k -> {[ok |-> b] : b \in BOOLEAN}] : k \in 2..3}
        /\ src \in UNION {[1..k -> 0..2] : k \in 0..MaxLen}
        /\ at = 0 /\ held = 0 /\ phase = "idle" /\ nolsb \in BOOLEAN /\ temper \in T
        /\ fl \in [T -> T] /\ fm \in [T -> T] /\ runs = 0 /\ log = << >> /\ res = << >> /\ chatty = FALSE
Fixed == UNCHANGED << fl, fm, runs, res, chatty >>
Start0 == temper
BeginStep == runs < 2 /\ \E c \in BOOLEAN : CBegin(nolsb) /\ runs' = runs + 1 /\ chatty' = c
             /\ log' = << temper >> /\ UNCHANGED << fl, fm, res >>
\* the second run starts again: source from its beginning, tempering as before the first
Rewind == /\ phase = "idle" /\ runs = 1 /\ Len(res) = 1 /\ at > 0
          /\ at' = 0 /\ temper' = res[1].from /\ UNCHANGED << fam, src, held, phase, nolsb, fl, fm, runs, log, res, chatty >>
TryStep == CTry /\ log' = Append(log, "try") /\ Fixed
EnterStep == \E s \in {"lsb", "main"} : CEnter(s) /\ log' = Append(log, s) /\ Fixed
LeaveStep == CLeave(IF phase = "in lsb" THEN fl[temper] ELSE fm[temper]) /\ UNCHANGED log /\ Fixed
PeekStep == chatty /\ CPeek /\ UNCHANGED << fl, fm, runs, log, res, chatty >>
ReportStep == CReport /\ res' = Append(res, [set |-> held, t |-> temper, from |-> log[1], log |-> log, used |-> at])
              /\ UNCHANGED << fl, fm, runs, log, chatty >>
Next == BeginStep \/ Rewind \/ TryStep \/ EnterStep \/ LeaveStep \/ PeekStep \/ ReportStep
        \/ (phase = "idle" /\ runs = 2 /\ UNCHANGED vars) \/ (phase = "searching" /\ at = Len(src) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(TryStep) /\ WF_vars(EnterStep) /\ WF_vars(LeaveStep) /\ WF_vars(ReportStep)
ResultOK == \A k \in 1..Len(res) :
    LET r == res[k] IN
    /\ fam[r.set].ok
    /\ r.t = (IF nolsb THEN fm[r.from] ELSE fm[fl[r.from]])
    /\ SelectSeq(Tail(r.log), LAMBDA x : x \in {"lsb", "main"}) = (IF nolsb THEN << "main" >> ELSE << "lsb", "main" >>)
\* the first acceptable set not used before, from the start of the source on a rewound run
FirstOK == Len(res) >= 1 => /\ \A i \in 1..(res[1].used - 1) : ~fam[CChoice(src[i])].ok
                            /\ res[1].set = CChoice(src[res[1].used])
EqualOK == (Len(res) = 2 /\ res[2].used = res[1].used /\ res[1].from = res[2].from) => res[1].set = res[2].set /\ res[1].t = res[2].t
Ends == [](phase # "idle" => <>(phase = "idle" \/ (phase = "searching" /\ at = Len(src))))
=============================================================================
