----------------------------- MODULE ParityTrace -----------------------------
(* Validates recorded computations of certification vectors (C14).             *)
EXTENDS Parity, TraceBase
VARIABLES l, fac       \* fac: the irreducible factor certified at present
tvars == << A, C, st, P, cert, l, fac >>
TraceInit == l = 1 /\ A = << >> /\ C = << >> /\ st = {} /\ P = << >> /\ cert = {} /\ fac = {}
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
Rows(m) == [i \in 1..Len(m) |-> Set(m[i])]
TraceMachine == IsEvent("machine") /\ A' = TLCEval(Rows(E.A)) /\ P' = TLCEval(Rows(E.P)) /\ C' = << >> /\ st' = Set(E.s) /\ cert' = {} /\ fac' = {}
TraceParity ==
    /\ IsEvent("parity")
    /\ (IF Set(E.f) = fac THEN TRUE ELSE Irreducible(Set(E.f)) /\ (IF Len(A) > 30 THEN TRUE ELSE SimpleFactor(A, Set(E.f))))
    /\ fac' = Set(E.f)
    /\ IF E.thrown THEN Refuse(Set(E.f))
       ELSE /\ Certify(Set(E.f), Set(E.v))
            /\ Set(E.installed) = Set(E.v)
    /\ Set(E.s) = st
\* a shipped generator: the certified words of a spanning set of the states without a part
TraceKernel ==
    /\ IsEvent("kernel")
    /\ IF E.thrown THEN RankOf([i \in 1..Len(E.words) |-> Set(E.words[i])]) = E.w
       ELSE /\ Set(E.v) # {} /\ E.v = E.installed
            /\ LET v == Set(E.v) IN \A i \in 1..Len(E.words) : ~Odd(v \cap Set(E.words[i]))
    /\ Len(E.words) = E.n
    /\ Irreducible(Set(E.f)) /\ fac' = Set(E.f) /\ cert' = Set(E.v)
    /\ UNCHANGED << A, C, st, P >>
\* a state known by its certified word and the sequence of one output bit
TraceSampled ==
    /\ IsEvent("sampled")
    /\ IF Odd(cert \cap Set(E.word)) THEN Divides(fac, MinimalPoly(E.seq)) ELSE TRUE
    /\ UNCHANGED << A, C, st, P, cert, fac >>
TraceNext == TraceMachine \/ TraceParity \/ TraceKernel \/ TraceSampled
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
