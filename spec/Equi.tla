-------------------------------- MODULE Equi --------------------------------
(***************************************************************************)
(* Dimension of equidistribution.  Over all states, the v most significant *)
(* bits of k consecutive outputs take every value equally often exactly    *)
(* when the k*v functionals  row_b * A^j  are linearly independent         *)
(* (MCEqui checks this against counting).  k(v) is the largest such k.     *)
(*                                                                         *)
(* top : the output rows from the most significant bit downwards.          *)
(* M   : the transition.  starts : << >> for "over all states", else a     *)
(* spanning set of the states the generator may be in (an M-invariant      *)
(* subspace); then the functionals are restricted to that subspace.        *)
(***************************************************************************)
EXTENDS Charpoly, Packed

TopDown(D) == [i \in 1..Len(D) |-> D[Len(D) + 1 - i]]

\* row, row*M, ..., row*M^(k-1)
Krylov(M, row, k) ==
    FoldLeft(LAMBDA acc, i : Append(acc, IF i = 1 THEN row ELSE RowMat(acc[i - 1], M)), << >>, Iota(1, k))

\* a functional as its values on the given states
OnStates(row, states) == {i \in 1..Len(states) : Odd(row \cap states[i])}

RECURSIVE Grow(_, _, _, _, _, _)
\* R[i][j] : j-th functional of the i-th bit from the top; basis spans the first k blocks of v bits (all as Vec)
Grow(R, basis, k, v, max, d) ==
    IF k >= max THEN k
    ELSE LET nb == FoldLeft(LAMBDA bs, i : IF Len(bs) < k * v + i - 1 THEN bs ELSE VInsert(bs, R[i][k + 1], d), basis, Iota(1, v))
         IN IF Len(nb) = (k + 1) * v THEN Grow(R, nb, k + 1, v, max, d) ELSE k

\* << k(1), ..., k(w) >> for a space of dimension d
DimsOf(R, d, w) ==
    LET P == IF d >= PackFrom THEN TLCEval([i \in 1..w |-> VecAll(R[i], d)]) ELSE R
    IN [v \in 1..w |-> Grow(P, << >>, 0, v, d \div v, d)]

\* row i is needed for accuracies v >= i only, hence for at most d/i blocks
RowsTable(M, top, d, w) == TLCEval([i \in 1..w |-> Krylov(M, top[i], d \div i)])
Dims(M, top, w) == TLCEval(DimsOf(RowsTable(M, top, Len(M), w), Len(M), w))

\* restricted to the span of the given states (their number is the dimension)
DimsOn(M, top, w, states) ==
    LET d == Len(states)
        T == RowsTable(M, top, d, w)
        R == TLCEval([i \in 1..w |-> [j \in 1..Len(T[i]) |-> OnStates(T[i][j], states)]])
    IN TLCEval(DimsOf(R, d, w))

Defect(ks, d, w) == FoldLeft(LAMBDA acc, v : acc + (d \div v) - ks[v], 0, Iota(1, w))

\* basis of the subspace generated from s (the states s, Ms, M^2 s, ...)
RECURSIVE Orbit(_, _, _, _)
Orbit(M, s, basis, acc) ==
    LET nb == Insert(basis, s) IN
    IF Len(nb) = Len(basis) THEN acc ELSE Orbit(M, MatVec(M, s), nb, Append(acc, s))
OrbitBasis(M, s) == Orbit(M, s, << >>, << >>)

(***************************************************************************)
(* Queries as actions: a query object is opened on the present machine and *)
(* answered later; neither touches the machine.                            *)
(***************************************************************************)
VARIABLE open      \* query id -> accuracy, declared dimension
evars == << A, C, st, open >>
Ask(id, v, d)  == open' = [q \in (DOMAIN open) \cup {id} |-> IF q = id THEN << v, d >> ELSE open[q]]
                  /\ UNCHANGED mvars
AnswerAll(id, ks, sum) ==
    LET v == open[id][1]  d == open[id][2]  K == Dims(A, TopDown(C), v) IN
    /\ ks = K /\ sum = Defect(K, d, v) /\ UNCHANGED evars
AnswerOne(id, kv, sum) ==
    LET v == open[id][1]  d == open[id][2]  K == Dims(A, TopDown(C), v) IN
    /\ kv = K[v] /\ sum = Defect(K, d, v - 1) /\ UNCHANGED evars

(***************************************************************************)
(* A generator known only by its outputs: its polynomial is the least      *)
(* common multiple of the polynomials of its output bits, and on the       *)
(* cyclic space generated by its present state the transition is the       *)
(* companion matrix and output bit b is the row of its first values.       *)
(***************************************************************************)
OutsBit(outs, b) == [i \in 1..Len(outs) |-> IF b \in outs[i] THEN 1 ELSE 0]
OutsPoly(outs, w) == FoldLeft(LAMBDA p, b : IF Annihilates(p, OutsBit(outs, b)) THEN p ELSE LCMP(p, MinimalPoly(OutsBit(outs, b))), One, Iota(0, w - 1))
OutsRow(outs, b, n) == {i \in 0..(n - 1) : b \in outs[i + 1]}
OutsTop(outs, n, w) == [i \in 1..w |-> OutsRow(outs, w - i, n)]
\* row * M^j in that basis is the bit's sequence from its j-th value on
OutsTable(outs, n, w) ==
    TLCEval([i \in 1..w |-> [j \in 1..(n \div i) |-> {t \in 0..(n - 1) : (w - i) \in outs[j + t]}]])
OutsDims(outs, n, w) == TLCEval(DimsOf(OutsTable(outs, n, w), n, w))

(***************************************************************************)
(* The part of a generator that belongs to an irreducible factor f of its  *)
(* polynomial G: the outputs after applying the cofactor G/f are sums of   *)
(* shifted outputs.                                                        *)
(***************************************************************************)
ApplyToOuts(outs, q, k) ==
    LET js == SetToSeq(q) IN
    TLCEval([i \in 1..k |-> FoldLeft(LAMBDA acc, j : Xor(acc, outs[i + j]), {}, js)])
PartOuts(outs, f, w) == ApplyToOuts(outs, Div(OutsPoly(outs, w), f), 2 * Deg(f))
PartDims(outs, f, w) == OutsDims(PartOuts(outs, f, w), Deg(f), w)
=============================================================================
