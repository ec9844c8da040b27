-------------------------------- MODULE Search --------------------------------
(***************************************************************************)
(* A parameter search as a state machine.  The family lists what each      *)
(* parameter set would give: whether it is acceptable and its polynomials. *)
(* A source supplies values in order; a value v selects set v mod |fam|.   *)
(* One search object is started any number of times.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES fam,     \* sequence of [ok, poly, factor]
          src, at, \* the source and how much of it has been used
          count,   \* parameter sets tried since the object was created
          held,    \* the set the generator holds (index into fam, 0: none yet)
          run      \* the running start: [on, budget, tried, found]
svars == << fam, src, at, count, held, run >>

Idle == [on |-> FALSE, budget |-> 0, tried |-> 0, found |-> FALSE]
Choice(v) == (v % Len(fam)) + 1

NewSearch(f) == fam' = f /\ src' = << >> /\ at' = 0 /\ count' = 0 /\ held' = 0 /\ run' = Idle
Feed(vs)     == ~run.on /\ src' = src \o vs /\ UNCHANGED << fam, at, count, held, run >>
Start(t)     == ~run.on /\ run' = [on |-> TRUE, budget |-> t, tried |-> 0, found |-> FALSE]
                /\ UNCHANGED << fam, src, at, count, held >>
Try ==
    /\ run.on /\ ~run.found /\ run.tried < run.budget /\ at < Len(src)
    /\ at' = at + 1
    /\ count' = count + 1
    /\ held' = Choice(src[at + 1])
    /\ run' = [run EXCEPT !.tried = @ + 1, !.found = fam[Choice(src[at + 1])].ok]
    /\ UNCHANGED << fam, src >>
Finish(r) ==
    /\ run.on /\ (run.found \/ run.tried >= run.budget)
    /\ r = run.found
    /\ run' = Idle
    /\ UNCHANGED << fam, src, at, count, held >>
=============================================================================
