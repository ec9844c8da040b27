------------------------------- MODULE MCEqui -------------------------------
(***************************************************************************)
(* Every machine of dimension N with W output bits: the dimension computed *)
(* from ranks is the one defined by counting outputs over all states, and  *)
(* for invariant subspaces over the states of the subspace.  For machines  *)
(* with irreducible polynomial the black-box view (outputs only) gives the *)
(* same answer from every nonzero state.                                   *)
(***************************************************************************)
EXTENDS Equi
CONSTANTS N, W
VARIABLE k
allvars == << A, C, st, open, k >>
Vecs == SUBSET (0..(N - 1))
Init == /\ A \in {M \in [1..N -> Vecs] : RankOf(M) = N}
        /\ C \in [1..W -> Vecs] /\ st \in Vecs \ {{}} /\ open = << >> /\ k = 0
Step == k < N /\ k' = k + 1 /\ Generate(Out(MatVec(A, st))) /\ UNCHANGED open
Done == k = N /\ UNCHANGED allvars
Next == Step \/ Done
Spec == Init /\ [][Next]_allvars

\* elimination on packed vectors is elimination on sets (across a chunk border)
PackedRank(vs, n) == Len(FoldLeft(LAMBDA b, v : PInsert(b, Pack(v, n)), << >>, vs))
Far(v) == {b + 28 : b \in v}
PackedOK == (k = 0) =>
    /\ PackedRank(C, Chunks(N)) = RankOf(C)
    /\ \A vs \in {TLCEval([i \in 1..W |-> Far(C[i])]) \o << Far(st), st >>} : PackedRank(vs, 2) = RankOf(vs)

Image(s, v, kk) ==      \* the v top bits of kk outputs after s
    LET ss == StatesAfter(A, s, kk) IN [j \in 1..kk |-> [i \in 1..v |-> Dot(TopDown(C)[i], ss[j])]]
Uniform(S, v, kk) ==
    LET im == [s \in S |-> Image(s, v, kk)]
        vals == [1..kk -> [1..v -> {0, 1}]]
    IN \A a \in vals : Cardinality({s \in S : im[s] = a}) * Cardinality(vals) = Cardinality(S)
DefK(S, v) == Max({0} \cup {kk \in 1..N : kk * v <= N /\ Uniform(S, v, kk)})
CountOK == (k = 0) => \A v \in 1..W : Dims(A, TopDown(C), W)[v] = DefK(Vecs, v)
Span(b) == {FoldLeft(LAMBDA acc, i : IF i \in T THEN Xor(acc, b[i]) ELSE acc, {}, Iota(1, Len(b))) : T \in SUBSET (1..Len(b))}
SubspaceOK == (k = 0) =>
    LET b == OrbitBasis(A, st) IN \A v \in 1..W : DimsOn(A, TopDown(C), W, b)[v] = DefK(Span(b), v)
BlackBoxOK == (k <= 1) =>
    LET G == Accumulate(A, C, st, One)
        ss == StatesAfter(A, st, 2 * N)
        outs == [i \in 1..(2 * N) |-> Out(ss[i])]
        n == Deg(G)
    IN (n >= 1 /\ Irreducible(G)) =>
        /\ OutsPoly(outs, W) = G
        /\ OutsDims(outs, n, W) = Dims(Companion(G), OutsTop(outs, n, W), W)
        /\ Dims(Companion(G), OutsTop(outs, n, W), W) = DimsOn(A, TopDown(C), W, OrbitBasis(A, st))
             \/ Len(OrbitBasis(A, st)) # n
        /\ Len(OrbitBasis(A, st)) = N => Dims(Companion(G), OutsTop(outs, n, W), W) = Dims(A, TopDown(C), W)
\* for every irreducible factor of the outputs' polynomial: the part's dimension is the one counted
\* over the states of the factor's subspace (when that subspace is what the outputs show)
PartOK == (k = 0) =>
    LET ss == StatesAfter(A, st, 3 * N)
        outs == [i \in 1..(3 * N) |-> Out(ss[i])]
        G == OutsPoly(outs, W)
    IN \A f \in SUBSET (0..N) : (Deg(f) >= 1 /\ IrreducibleDef(f) /\ Divides(f, G) /\ ~Divides(f, Div(G, f))) =>
        LET b == OrbitBasis(A, ApplyPoly(A, Div(G, f), st)) IN
        Len(b) = Deg(f) => \A v \in 1..W : PartDims(outs, f, W)[v] = DefK(Span(b), v)
=============================================================================
