----------------------------- MODULE CertifyTrace -----------------------------
(* Validates recorded runs of the shipped period certifications (C23).         *)
EXTENDS Certify, TraceBase
VARIABLES l, fac, quo, wordSeen, ran
tvars == << A, C, st, P, cert, cst, fix, l, fac, quo, wordSeen, ran >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {} /\ P = << >> /\ cert = {} /\ cst = {} /\ fix = {} /\ fac = {} /\ quo = {}
             /\ wordSeen = {} /\ ran = 0
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Words(ws) == [i \in 1..Len(ws) |-> Set(ws[i])]
\* a polynomial takes a whole recorded sequence of words to zero
Kills(p, ws) == \A i \in 1..(Len(ws) - Deg(p)) : FoldLeft(LAMBDA acc, j : IF (j - 1) \in p THEN Xor(acc, ws[i + j - 1]) ELSE acc, {}, Iota(1, Deg(p) + 1)) = {}
\* a parameter set: its large factor and what the programs computed for it
TraceSystem ==
    /\ IsEvent("system")
    /\ Irreducible(Set(E.f)) /\ Set(E.f) # {0, 1} /\ Deg(Set(E.f)) = E.d
    /\ Set(E.v) # {} /\ Set(E.installed) = Set(E.v)
    /\ fac' = Set(E.f) /\ cert' = Set(E.v) /\ quo' = {} /\ fix' = {} /\ wordSeen' = {} /\ ran' = 0
    /\ UNCHANGED << A, C, st, P, cst >>
\* another vector: orthogonal to the certified words of the states without a large component
TraceVector ==
    /\ IsEvent("vector")
    /\ Set(E.v) # {} /\ Set(E.installed) = Set(E.v)
    /\ \A i \in 1..Len(E.words) : ~Odd(Set(E.v) \cap Set(E.words[i]))
    /\ cert' = Set(E.v) /\ fix' = {} /\ ran' = 0 /\ wordSeen' = {}
    /\ UNCHANGED << A, C, st, P, cst, fac, quo >>
\* words: the certified words of c, A c, A^2 c, ..
TraceFix ==
    /\ IsEvent("fix")
    /\ GCD(Set(E.f), Set(E.q)) = One /\ Set(E.f) = fac
    /\ Kills(Mul(Set(E.q), fac), TLCEval(Words(E.words)))
    /\ Len(E.words) > Deg(fac) + Deg(Set(E.q))
    /\ IsFixPoly(Set(E.h), fac, Set(E.q))
    \* exactly, where the program had the polynomial of the whole transition
    /\ (IF E.full THEN FixWord(Set(E.h), Words(E.words)) = Set(E.fix) ELSE TRUE)
    /\ fix' = Set(E.fix) /\ quo' = Set(E.q)
    /\ UNCHANGED << A, C, st, P, cert, cst, fac, wordSeen, ran >>
\* one run on a state: seq is a bit of the outputs after the run; unit the outputs of the one-bit state changed
TraceRun ==
    /\ IsEvent("run")
    /\ E.ret \in 0..1
    /\ (IF E.aligned THEN E.ret = (IF Certified(cert, fix, Set(E.word)) THEN 1 ELSE 0) ELSE TRUE)
    /\ (IF E.ret = 1 THEN E.after = E.before /\ E.word2 = E.word
        ELSE /\ E.k \in cert
             /\ \A i \in 1..Len(E.before) : Set(E.after[i]) = Xor(Set(E.before[i]), Set(E.unit[i]))
             /\ (IF E.aligned THEN Set(E.word2) = Xor(Set(E.word), {E.k}) ELSE TRUE))
    /\ (IF E.aligned THEN Certified(cert, fix, Set(E.word2)) ELSE TRUE)
    /\ E.ret2 = 1 /\ E.after2 = E.after
    /\ Divides(fac, MinimalPoly(E.seq))
    /\ wordSeen' = Set(E.word2) /\ ran' = ran + 1
    /\ UNCHANGED << A, C, st, P, cert, cst, fix, fac, quo >>
\* a state whose recorded words are all without the large factor cannot have been certified
TraceWithout ==
    /\ IsEvent("without")
    /\ Deg(Set(E.g)) >= 0 /\ ~Divides(fac, Set(E.g)) /\ Len(E.words) >= E.n + Deg(Set(E.g))
    /\ Kills(Set(E.g), TLCEval(Words(E.words)))
    /\ E.ret = 0
    /\ UNCHANGED << A, C, st, P, cert, cst, fix, fac, quo, wordSeen, ran >>
\* the programs' reduction of a state to its large component
TraceAnni ==
    /\ IsEvent("anni")
    /\ LET ws == TLCEval(Words(E.words)) IN
       IF E.r THEN /\ {i \in 1..Len(ws) : ws[i] # {}} # {}
                   /\ Kills(fac, ws) /\ Len(ws) >= E.n + Deg(fac)
       ELSE ~E.has
    /\ UNCHANGED << A, C, st, P, cert, cst, fix, fac, quo, wordSeen, ran >>
TraceNext == TraceSystem \/ TraceVector \/ TraceFix \/ TraceRun \/ TraceWithout \/ TraceAnni
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
