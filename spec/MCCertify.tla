------------------------------ MODULE MCCertify ------------------------------
(***************************************************************************)
(* All invertible transitions of dimension N with a simple irreducible     *)
(* factor f and cofactor q, all constants, all certification vectors of W  *)
(* bits and all states: a certified state has the period of f (a multiple  *)
(* of the order of x modulo f), the run repairs every other state by one   *)
(* bit, a second run changes nothing, and steps keep what was reached.     *)
(***************************************************************************)
EXTENDS Certify
CONSTANTS N, W
VARIABLES f, q, phase, last, h
all == << A, C, st, P, cert, cst, fix, f, q, phase, last, h >>
Vecs == SUBSET (0..(N - 1))
IrredUpTo == {g \in SUBSET (0..N) : 0 \in g /\ g # {0, 1} /\ IrreducibleDef(g)}
Cofactors == {g \in SUBSET (0..N) : 0 \in g}
KernelSize(M, p) == Cardinality({s \in Vecs : ApplyPoly(M, p, s) = {}})
Splits(M, g, r) == /\ Deg(g) + Deg(r) = N /\ GCD(g, r) = One
                   /\ KernelSize(M, g) = 2 ^ Deg(g) /\ KernelSize(M, r) = 2 ^ Deg(r)
Words(s) == [i \in 1..(N + 1) |-> WordOf(P, StatesAfter(A, s, N + 1)[i])]
Init == /\ A \in [1..N -> Vecs] /\ C = << >> /\ P = [b \in 1..W |-> {b - 1}]
        /\ f \in IrredUpTo /\ q \in Cofactors /\ Splits(A, f, q)
        /\ cst \in Vecs
        /\ cert \in SUBSET (0..(W - 1)) /\ Certifies(A, P, f, cert)
        /\ h = (CHOOSE p \in SUBSET (0..(N - 1)) : IsFixPoly(p, f, q))
        /\ fix = WordOf(P, ApplyPoly(A, h, cst))
        /\ st = {} /\ phase = 0 /\ last = 0
Pick == phase = 0 /\ st' \in Vecs /\ phase' = 1 /\ UNCHANGED << A, C, P, cert, cst, fix, f, q, last, h >>
First == phase = 1 /\ (\E r \in 0..1 : RunCert(r) /\ last' = r) /\ phase' = 2 /\ UNCHANGED << f, q, h >>
Second == phase = 2 /\ (\E r \in 0..1 : RunCert(r) /\ last' = r) /\ phase' = 3 /\ UNCHANGED << f, q, h >>
Move == phase = 3 /\ Advance /\ phase' = 4 /\ UNCHANGED << f, q, last, h >>
Done == phase = 4 /\ UNCHANGED all
Next == Pick \/ First \/ Second \/ Move \/ Done
Spec == Init /\ [][Next]_all

\* the period of the affine walk from s, by walking (the map is invertible)
RECURSIVE Walk(_, _, _)
Walk(s0, s, k) == IF s = s0 THEN k ELSE Walk(s0, Affine(A, cst, s), k + 1)
Period(s) == Walk(s, Affine(A, cst, s), 1)
Fixed == ApplyPoly(A, h, cst)
FixOK == phase = 0 => /\ ~HasPart(A, q, cst, Fixed)
                      /\ ApplyPoly(A, f, Fixed) = {}
                      /\ FixWord(h, [i \in 1..(N + 1) |-> WordOf(P, IF i = 1 THEN cst ELSE StatesAfter(A, cst, N)[i - 1])]) = fix
SoundOK == phase = 1 => (Certified(cert, fix, WordOf(P, st)) => HasPart(A, q, cst, st))
PeriodOK == phase = 1 => (HasPart(A, q, cst, st) => Period(st) % OrderX(f) = 0)
SmallOK == phase = 1 => (~HasPart(A, q, cst, st) => Period(st) <= 2 ^ Deg(q))
AfterOK == phase >= 2 => HasPart(A, q, cst, st)
SecondOK == phase = 3 => last = 1
=============================================================================
