------------------------------ MODULE Combined ------------------------------
(***************************************************************************)
(* A combined search: parameter sets are tried until one is acceptable,    *)
(* then the least-significant-bit tempering step is applied (unless it is  *)
(* switched off) and then the main one; the report is about the generator  *)
(* as it is then.  A verbose run measures in between, which changes        *)
(* nothing.  fam, src, at, held are as in Search; temper is the tempering  *)
(* in force.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES fam, src, at, held, phase, nolsb, temper
cvars == << fam, src, at, held, phase, nolsb, temper >>

CChoice(v) == (v % Len(fam)) + 1
CFeed(vs) == phase = "idle" /\ src' = src \o vs /\ UNCHANGED << fam, at, held, phase, nolsb, temper >>
CBegin(nl) == phase = "idle" /\ phase' = "searching" /\ nolsb' = nl /\ UNCHANGED << fam, src, at, held, temper >>
CTry ==
    /\ phase = "searching" /\ at < Len(src)
    /\ at' = at + 1
    /\ held' = CChoice(src[at + 1])
    /\ phase' = IF fam[CChoice(src[at + 1])].ok THEN "found" ELSE "searching"
    /\ UNCHANGED << fam, src, nolsb, temper >>
CEnter(step) ==
    /\ step = (IF phase = "found" /\ ~nolsb THEN "lsb" ELSE "main")
    /\ phase \in {"found", "lsb done"}
    /\ phase' = IF step = "lsb" THEN "in lsb" ELSE "in main"
    /\ UNCHANGED << fam, src, at, held, nolsb, temper >>
CLeave(t) ==
    /\ phase \in {"in lsb", "in main"}
    /\ phase' = IF phase = "in lsb" THEN "lsb done" ELSE "main done"
    /\ temper' = t
    /\ UNCHANGED << fam, src, at, held, nolsb >>
CPeek == phase \in {"found", "lsb done", "main done"} /\ UNCHANGED cvars
CReport ==
    /\ phase = "main done" /\ phase' = "idle"
    /\ UNCHANGED << fam, src, at, held, nolsb, temper >>
=============================================================================
