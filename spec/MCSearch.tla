------------------------------- MODULE MCSearch -------------------------------
(* All families of two or three sets, all sources up to a length, two starts  *)
(* of one object with every pair of budgets.                                  *)
EXTENDS Search
CONSTANTS MaxLen, MaxBudget
Budgets == -1..MaxBudget
VARIABLES starts, log, res    \* log: choices of the current start; res: last result
vars == << fam, src, at, count, held, run, starts, log, res >>
Fams == UNION {[1..k -> {[ok |-> b] : b \in BOOLEAN}] : k \in 2..3}
Srcs == UNION {[1..k -> 0..3] : k \in 0..MaxLen}
Init == fam \in Fams /\ src \in Srcs /\ at = 0 /\ count = 0 /\ held = 0 /\ run = Idle
        /\ starts = 0 /\ log = << >> /\ res = << >>
TryStep == Try /\ log' = Append(log, held') /\ UNCHANGED << starts, res >>
FinishStep == \E r \in BOOLEAN : Finish(r) /\ res' = << r, log >> /\ UNCHANGED << starts, log >>
Next ==
    \/ \E t \in Budgets : starts < 2 /\ Start(t) /\ starts' = starts + 1 /\ log' = << >> /\ res' = << >>
    \/ TryStep
    \/ FinishStep
    \/ (~run.on /\ starts = 2 /\ UNCHANGED vars)
    \/ (run.on /\ ~run.found /\ run.tried < run.budget /\ at = Len(src) /\ UNCHANGED vars)   \* source used up
Spec == Init /\ [][Next]_vars /\ WF_vars(TryStep) /\ WF_vars(FinishStep)
CountOK == count = at /\ at <= Len(src)
BudgetOK == run.on => run.tried <= (IF run.budget > 0 THEN run.budget ELSE 0)
ResultOK == res # << >> =>
    LET r == res[1] tr == res[2] IN
    /\ r => tr # << >> /\ fam[tr[Len(tr)]].ok /\ held = tr[Len(tr)]
    /\ \A i \in 1..(Len(tr) - 1) : ~fam[tr[i]].ok            \* the first acceptable one
    /\ ~r => \A i \in 1..Len(tr) : ~fam[tr[i]].ok
    /\ \A i \in 1..Len(tr) : tr[i] = Choice(src[at - Len(tr) + i])   \* in order, none skipped
Terminates == [](run.on => <>(~run.on \/ at = Len(src)))
=============================================================================
