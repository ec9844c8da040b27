------------------------------- MODULE Certify -------------------------------
(***************************************************************************)
(* Period certification at run time.  The generator moves by x -> A x + c, *)
(* with c = 0 for SFMT and c the effect of the constant exponent bits for  *)
(* dSFMT.  The characteristic polynomial of A is f*q (f irreducible and    *)
(* coprime to q); in the f-component the affine map has exactly one fixed  *)
(* point, and only the states whose f-part is elsewhere have the period of *)
(* f.  A run of the certification looks at one word of the state: the      *)
(* state is certified when this word, less the word of the fixed point,    *)
(* has odd inner product with the certification vector; a state that is    *)
(* not is made so by changing one bit selected by the vector.              *)
(* The certified word is made of the first Len(P) coordinates of the       *)
(* state.                                                                  *)
(***************************************************************************)
EXTENDS Parity
VARIABLES cst, fix
cvars == << A, C, st, P, cert, cst, fix >>

Affine(M, c, s) == Xor(MatVec(M, s), c)
Certified(v, fx, word) == Odd(Xor(word, fx) \cap v)
\* the f-part of s is not the fixed point: it moves (A + 1 is invertible on the f-component)
HasPart(M, q, c, s) == ApplyPoly(M, q, Xor(Affine(M, c, s), s)) # {}
\* the polynomial that is (x + 1)^-1 modulo f and 0 modulo q takes c to the fixed point's f-part
IsFixPoly(h, f, q) == Mod(Mul(h, {0, 1}), f) = Mod(One, f) /\ Divides(q, h)
FixWord(h, words) == FoldLeft(LAMBDA acc, i : IF (i - 1) \in h THEN Xor(acc, words[i]) ELSE acc, {}, Iota(1, Len(words)))

Advance == st' = Affine(A, cst, st) /\ UNCHANGED << A, C, P, cert, cst, fix >>
RunCert(ret) ==
    /\ IF Certified(cert, fix, WordOf(P, st)) THEN ret = 1 /\ st' = st
       ELSE ret = 0 /\ \E k \in cert : st' = Xor(st, {k})
    /\ UNCHANGED << A, C, P, cert, cst, fix >>
=============================================================================
