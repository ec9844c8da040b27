-------------------------------- MODULE GF2 --------------------------------
(***************************************************************************)
(* Linear algebra and polynomial arithmetic over the two-element field.    *)
(*                                                                         *)
(* A vector of GF(2)^n is the finite set of the coordinates (0..n-1) that  *)
(* are 1; a polynomial is the finite set of the exponents with coefficient *)
(* 1; a word is the finite set of its bit positions that are 1 (position 0 *)
(* is the least significant bit).  Addition is symmetric difference in all *)
(* three.  Nothing here is ever packed into an integer, so TLC's 32-bit    *)
(* integers never limit the sizes.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Xor(a, b)   == (a \ b) \cup (b \ a)
XorSeq(s)   == FoldLeft(Xor, {}, s)
Odd(S)      == Cardinality(S) % 2 = 1
Dot(a, b)   == IF Odd(a \cap b) THEN 1 ELSE 0
Set(s)      == ToSet(s)          \* JSON array of indices -> set

Iota(a, b)  == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]  \* <<a, .., b>>
Down(a, b)  == [i \in 1..(IF a >= b THEN a - b + 1 ELSE 0) |-> a - i + 1]  \* <<a, a-1, .., b>>

(***************************************************************************)
(* Matrices are sequences of rows (row i at index i+1), each row a vector. *)
(***************************************************************************)
MatVec(M, s) == {i \in 0..(Len(M) - 1) : Odd(M[i + 1] \cap s)}
RowMat(r, M) == FoldLeft(LAMBDA acc, i : IF (i - 1) \in r THEN Xor(acc, M[i]) ELSE acc,
                         {}, Iota(1, Len(M)))

(***************************************************************************)
(* Incremental elimination.  A basis is a sequence of <<pivot, vector>>;   *)
(* every vector avoids the pivots of the entries before it.                *)
(***************************************************************************)
Reduce(basis, v) == FoldLeft(LAMBDA w, e : IF e[1] \in w THEN Xor(w, e[2]) ELSE w, v, basis)
Insert(basis, v) ==
    LET w == Reduce(basis, v)
    IN IF w = {} THEN basis ELSE Append(basis, << CHOOSE x \in w : TRUE, w >>)
SpanOf(vs)     == FoldLeft(Insert, << >>, vs)
InSpan(b, v)   == Reduce(b, v) = {}
RankOf(vs)     == Len(SpanOf(vs))
Independent(vs) == RankOf(vs) = Len(vs)

(***************************************************************************)
(* Polynomials.                                                            *)
(***************************************************************************)
Zero  == {}
One   == {0}
XP    == {1}
Deg(p) == FoldSet(LAMBDA a, b : IF a > b THEN a ELSE b, -1, p)      \* the largest element, -1 if none
Shift(p, k)  == {e + k : e \in p}
Mul(p, q)    == FoldLeft(LAMBDA acc, e : Xor(acc, Shift(q, e)), {}, SetToSeq(p))
\* <<quotient, remainder>> of p by f, f # 0
DivMod(p, f) ==
    LET n == Deg(f) IN
    FoldLeft(LAMBDA qr, d : IF d \in qr[2] THEN << qr[1] \cup {d - n}, Xor(qr[2], Shift(f, d - n)) >> ELSE qr,
             << {}, p >>, Down(Deg(p), n))
Mod(p, f)  ==
    LET n == Deg(f) IN
    FoldLeft(LAMBDA r, d : IF d \in r THEN Xor(r, Shift(f, d - n)) ELSE r, p, Down(Deg(p), n))
Div(p, f)  == DivMod(p, f)[1]
Divides(f, p) == Mod(p, f) = {}
RECURSIVE GCD(_, _)
GCD(p, q) == IF q = {} THEN p ELSE GCD(q, Mod(p, q))
LCMP(p, q) == Div(Mul(p, q), GCD(p, q))
SqMod(p, f)  == Mod({2 * e : e \in p}, f)
FrobIter(p, k, f) == FoldLeft(LAMBDA r, i : SqMod(r, f), p, Iota(1, k))   \* p^(2^k) mod f
\* x^E mod f, E a natural number given as the set of its 1-bits
PowX(E, f) ==
    FoldLeft(LAMBDA r, b : LET s == SqMod(r, f) IN IF b \in E THEN Mod(Shift(s, 1), f) ELSE s,
             Mod(One, f), Down(Deg(E), 0))

PrimesUpTo(n) == {p \in 2..n : \A d \in 2..(p - 1) : p % d # 0}
PrimeDivisors(n) == {p \in PrimesUpTo(n) : n % p = 0}

\* definition: no factor of smaller positive degree (exponential; for small degrees)
PolysUpTo(d) == SUBSET (0..d)
IrreducibleDef(f) ==
    /\ Deg(f) >= 1
    /\ \A g \in PolysUpTo(Deg(f) \div 2) : Deg(g) >= 1 => ~Divides(g, f)
\* Rabin's criterion, equal to the definition (checked in MCPolyTheory)
Irreducible(f) ==
    LET n == Deg(f) IN
    /\ n >= 1
    /\ IF n = 1 THEN TRUE
       ELSE /\ 0 \in f
            /\ FrobIter(XP, n, f) = XP
            /\ \A q \in PrimeDivisors(n) : GCD(f, Xor(FrobIter(XP, n \div q, f), XP)) = One

\* multiplicative order of x modulo f (f(0) = 1), by walking; for small degrees
RECURSIVE OrdWalk(_, _, _)
OrdWalk(e, f, k) == IF e = One THEN k ELSE OrdWalk(Mod(Shift(e, 1), f), f, k + 1)
OrderX(f) == OrdWalk(Mod(XP, f), f, 1)
PrimitiveDef(f) == Deg(f) >= 1 /\ 0 \in f /\ OrderX(f) = 2^Deg(f) - 1

\* a factor-based primitivity test: for every listed E = (2^n - 1)/p, x^E # 1
PrimitiveBy(f, Es) == Irreducible(f) /\ 0 \in f /\ \A k \in 1..Len(Es) : PowX(Es[k], f) # One

(***************************************************************************)
(* Linear recurring sequences.  bits : a sequence over {0,1}.              *)
(* Berlekamp-Massey; the result is the minimal polynomial in the sense     *)
(* "sum_j p_j s_(i+j) = 0 for all i", monic, of least degree.              *)
(***************************************************************************)
BMStep(bits, st, i) ==
    LET d == Odd({j \in st.C : j < i /\ bits[i - j] = 1}) IN
    IF ~d THEN [st EXCEPT !.m = @ + 1]
    ELSE LET C2 == Xor(st.C, Shift(st.B, st.m)) IN
         IF 2 * st.L <= i - 1
         THEN [C |-> C2, B |-> st.C, L |-> i - st.L, m |-> 1]
         ELSE [st EXCEPT !.C = C2, !.m = @ + 1]
BerlekampMassey(bits) ==
    FoldLeft(LAMBDA st, i : BMStep(bits, st, i), [C |-> {0}, B |-> {0}, L |-> 0, m |-> 1], Iota(1, Len(bits)))
MinimalPoly(bits) == LET r == BerlekampMassey(bits) IN {r.L - j : j \in r.C}
\* p annihilates the whole recorded window
Annihilates(p, bits) ==
    \A i \in 0..(Len(bits) - 1 - Deg(p)) : ~Odd({j \in p : bits[i + j + 1] = 1})

=============================================================================
