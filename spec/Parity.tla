------------------------------- MODULE Parity -------------------------------
(***************************************************************************)
(* Period certification.  The characteristic polynomial of A is f*q with f *)
(* irreducible and coprime to q; one word of the state, P st, is the       *)
(* certified word.  A vector v certifies when every state (after at least  *)
(* one step) whose certified word has odd inner product with v has a part  *)
(* in the f-component.  The states without such a part are the image of    *)
(* f(A) (MCParity checks this against the definition).                     *)
(***************************************************************************)
EXTENDS Charpoly
VARIABLES P, cert      \* cert: the installed vector
pvars == << P, cert >>

WordOf(PP, s) == {b \in 0..(Len(PP) - 1) : Odd(PP[b + 1] \cap s)}
\* A f(A) e for every unit vector e
WithoutPart(M, f) == TLCEval([i \in 1..Len(M) |-> MatVec(M, ApplyPoly(M, f, {i - 1}))])
WordsOf(M, PP, f) == LET ss == WithoutPart(M, f) IN TLCEval([i \in 1..Len(ss) |-> WordOf(PP, ss[i])])
Certifies(M, PP, f, v) == v # {} /\ LET ws == WordsOf(M, PP, f) IN \A i \in 1..Len(ws) : ~Odd(v \cap ws[i])
\* the same by functionals: the row v.P A f(A) vanishes
RowSum(PP, v) == FoldLeft(LAMBDA acc, b : IF (b - 1) \in v THEN Xor(acc, PP[b]) ELSE acc, {}, Iota(1, Len(PP)))
RowPoly(M, f, row) ==
    LET xs == FoldLeft(LAMBDA acc, i : Append(acc, RowMat(acc[i], M)), << row >>, Iota(1, Deg(f)))
    IN FoldLeft(LAMBDA acc, i : IF (i - 1) \in f THEN Xor(acc, xs[i]) ELSE acc, {}, Iota(1, Deg(f) + 1))
CertRow(M, f, row) == RowPoly(M, f, RowMat(row, M))
CertifiesByRow(M, PP, f, v) == v # {} /\ CertRow(M, f, RowSum(PP, v)) = {}
ImpossibleByRows(M, PP, f) == RankOf(TLCEval([b \in 1..Len(PP) |-> CertRow(M, f, PP[b])])) = Len(PP)
Impossible(M, PP, f) == RankOf(WordsOf(M, PP, f)) = Len(PP)
\* f is a simple factor: what f(A) leaves has dimension n - deg(f)
SimpleFactor(M, f) == RankOf([i \in 1..Len(M) |-> ApplyPoly(M, f, {i - 1})]) = Len(M) - Deg(f)

Certify(f, v) == CertifiesByRow(A, P, f, v) /\ cert' = v /\ UNCHANGED << A, C, st, P >>
Refuse(f)     == ImpossibleByRows(A, P, f) /\ UNCHANGED << A, C, st, P, cert >>
=============================================================================
