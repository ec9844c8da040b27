------------------------------ MODULE MCParity ------------------------------
(***************************************************************************)
(* All transitions of dimension N, all certified words of W bits, all      *)
(* simple irreducible factors (other than x), all vectors.                 *)
(***************************************************************************)
EXTENDS Parity
CONSTANTS N, W
VARIABLE f
Vecs == SUBSET (0..(N - 1))
IrredUpTo == {g \in SUBSET (0..N) : 0 \in g /\ IrreducibleDef(g)}
\* multiplicity by the definition of the characteristic polynomial's f-part: the kernel of f(A)^N
ZeroSet(p) == {s \in Vecs : ApplyPoly(A, p, s) = {}}
Power(p, k) == FoldLeft(LAMBDA acc, i : Mul(acc, p), One, Iota(1, k))
FPart == ZeroSet(Power(f, N))
Init == /\ A \in [1..N -> Vecs] /\ P \in [1..W -> Vecs] /\ C = << >> /\ st = {} /\ cert = {}
        /\ f \in IrredUpTo /\ Cardinality(FPart) = 2^Deg(f)
Next == UNCHANGED << A, C, st, P, cert, f >>
Spec == Init /\ [][Next]_<< A, C, st, P, cert, f >>
\* by definition: s has no f-part iff some polynomial not divisible by f takes it to zero
NoPart(s) == \E p \in SUBSET (0..N) : p # {} /\ ~Divides(f, p) /\ ApplyPoly(A, p, s) = {}
Later == {MatVec(A, s) : s \in Vecs}
Guarantees(v) == \A s \in Later : Odd(v \cap WordOf(P, s)) => ~NoPart(s)
SimpleOK == SimpleFactor(A, f)
ImageOK  == {ApplyPoly(A, f, s) : s \in Vecs} = {s \in Vecs : NoPart(s)}
CertOK   == \A v \in SUBSET (0..(W - 1)) : v # {} => (Certifies(A, P, f, v) <=> Guarantees(v))
ImposOK  == Impossible(A, P, f) <=> ~\E v \in SUBSET (0..(W - 1)) : v # {} /\ Guarantees(v)
RowsOK == /\ \A v \in SUBSET (0..(W - 1)) : Certifies(A, P, f, v) <=> CertifiesByRow(A, P, f, v)
          /\ Impossible(A, P, f) <=> ImpossibleByRows(A, P, f)
\* with an invertible transition the guarantee holds for every state
NowOK == (RankOf(A) = N) => \A v \in SUBSET (0..(W - 1)) :
            Certifies(A, P, f, v) => \A s \in Vecs : Odd(v \cap WordOf(P, s)) => ~NoPart(s)
=============================================================================
