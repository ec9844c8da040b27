------------------------------- MODULE MCSimd -------------------------------
(***************************************************************************)
(* Every machine with the companion of an irreducible polynomial of degree *)
(* N and words of L lanes of S bits: the number of blocks found from       *)
(* functionals is the one defined by counting over all states, and the     *)
(* measured k(v) is a lower bound of the true dimension of the stream of   *)
(* integers (over all starting lanes), less than L below it.               *)
(***************************************************************************)
EXTENDS Simd
CONSTANTS N, L, S
Vecs == SUBSET (0..(N - 1))
Irr == {f \in SUBSET (0..N) : Deg(f) = N /\ 0 \in f /\ IrreducibleDef(f)}
allvars == << A, C, st, open, outs, dim, lanes, pos, smode, wmode, prev, tab >>
Words(D, M, s, n) == LET ss == StatesAfter(M, s, n) IN [j \in 1..n |-> {b \in 0..(Len(D) - 1) : Dot(D[b + 1], ss[j]) = 1}]
Horizon == 2 * N + 4
Init == /\ \E f \in Irr : A = Companion(f)
        /\ C \in {c \in [1..(L * S) -> Vecs] : c # [b \in 1..(L * S) |-> {}]}
        /\ st = {0} /\ open = << >>
        /\ outs = TLCEval(Words(C, A, st, Horizon)) /\ dim = N /\ lanes = L /\ pos = 0 /\ smode = 0 /\ wmode = L /\ prev = {} /\ tab = << >>
\* two words handed out in every pair of modes
Step == /\ pos <= 3 /\ UNCHANGED evars
        /\ \/ pos = 0 /\ pos' = 1 /\ UNCHANGED << outs, dim, lanes, smode, wmode, prev, tab >>
           \/ \E sm \in 0..(L - 1), wm \in 1..L : pos = 1 /\ prev = {} /\ wmode = L /\ smode = 0 /\ SetModes(sm, wm)
           \/ pos >= 1 /\ GenWord(S, L, Weighted(Raw(pos + 1, smode, S, L), prev, wmode, S, L))
Done == pos > 3 /\ UNCHANGED allvars
Next == Step \/ Done
Spec == Init /\ [][Next]_allvars

B == RunTable(outs, N, L, S, S - 1, FALSE, S)
\* the stream after state s: integer i, its r-th bit from the top
Bit(os, i, r) == BitPos(i % L, r, S, S - 1, FALSE) \in os[(i \div L) + 1]
UniformRun(all, start, k, v) ==
    LET im == TLCEval([s \in Vecs |-> {<< q, r >> \in (1..k) \X (1..v) : Bit(all[s], start + q - 1, r)}])
        vals == {im[s] : s \in Vecs}
    IN Cardinality(vals) = 2 ^ (k * v) /\ \A a \in vals : Cardinality({s \in Vecs : im[s] = a}) * Cardinality(vals) = Cardinality(Vecs)
TrueRun(all, start, v) == Max({0} \cup {k \in 1..N : k * v <= N /\ UniformRun(all, start, k, v)})
TrueK(all, v) == CHOOSE k \in {TrueRun(all, s, v) : s \in 0..(L - 1)} : \A s \in 0..(L - 1) : k <= TrueRun(all, s, v)
Fresh == pos = 1 /\ smode = 0 /\ wmode = L
BlocksOK == Fresh =>
    LET all == TLCEval([s \in Vecs |-> Words(C, A, s, Horizon)]) T == B IN
    \A v \in 1..S, s \in 0..(L - 1) : T[v][s + 1] = Max({0} \cup {e \in 1..N : e * L * v <= N /\ UniformRun(all, s, e * L, v)})
BoundOK == Fresh =>
    LET all == TLCEval([s \in Vecs |-> Words(C, A, s, Horizon)]) T == B IN
    \A v \in 1..S : LET k == SimdK(T, L, v) IN k <= TrueK(all, v) /\ TrueK(all, v) - k < L
\* what the modes hand out is what the measurement says it is: in modes (sm, wm) a word is L consecutive
\* integers cut into two, the later ones first: integers from lane sm + wm on
ModesOK == pos = 3 =>
    LET r == Raw(3, smode, S, L) p == Raw(2, smode, S, L)
        from(q, j) == IF smode = 0 THEN L * (j - 1) + q ELSE L * (j - 2) + smode + q
        int(i) == Lane(outs[(i \div L) + 1], i % L, S)
    IN prev = r /\ \A q \in 0..(L - 1) : Lane(Weighted(r, p, wmode, S, L), q, S) = int(IF q < wmode THEN from(q, 3) ELSE from(q, 2))
=============================================================================
