-------------------------------- MODULE Simd --------------------------------
(***************************************************************************)
(* A generator of 128-bit words read as a stream of L integers per word.   *)
(* outs : its words on the component of dimension dim (an irreducible      *)
(* factor of degree dim annihilates them; the states  s, As, A^2 s, ...    *)
(* span the component, so a functional is the set of steps at which its    *)
(* value is one).                                                          *)
(*                                                                         *)
(* The generator's own view: a start mode sm (the word handed out begins   *)
(* sm lanes late, hence with the end of the previous word) and a weight    *)
(* mode wm (the lanes from wm on are those of the word handed out before). *)
(*                                                                         *)
(* Measuring: B(v, s) is the largest number of blocks of L consecutive     *)
(* integers, starting at lane s, whose v leading bits are jointly uniform; *)
(* a run of L*B integers from lane sm+w on proves L*B - (L-w) integers     *)
(* from lane sm of the following word on; k(v) is the minimum over sm of   *)
(* the best such bound (MCSimd: never above the true dimension and less    *)
(* than L below it).                                                       *)
(***************************************************************************)
EXTENDS Equi
VARIABLES outs, dim, lanes, pos, smode, wmode, prev, tab
svars == << outs, dim, lanes, pos, smode, wmode, prev, tab >>

Fits(os, f) ==     \* f annihilates the word sequence, which is not zero
    /\ \E i \in 1..Len(os) : os[i] # {}
    /\ \A t \in 0..(Len(os) - Deg(f) - 1) : FoldLeft(LAMBDA acc, i : IF i \in f THEN Xor(acc, os[t + i + 1]) ELSE acc, {}, Iota(0, Deg(f))) = {}

\* position in its word of the r-th bit (r = 1, 2, ...) of lane l; stride: bits per lane; top: leading bit within the lane
BitPos(l, r, stride, top, lsb) == l * stride + (IF lsb THEN r - 1 ELSE top - r + 1)
Functional(os, d, L, i, p) == {t \in 0..(d - 1) : p \in os[(i \div L) + t + 1]}

RECURSIVE GrowRun(_, _, _, _, _, _, _, _)
\* F[i][r]: r-th bit of integer i (counted from 1); basis spans e blocks of L integers from integer s on (all as Vec)
GrowRun(F, basis, s, e, L, v, max, d) ==
    IF e >= max THEN e
    ELSE LET nb == FoldLeft(LAMBDA bs, q : IF Len(bs) < e * L * v + q - 1 THEN bs
                                           ELSE VInsert(bs, F[s + e * L + ((q - 1) \div v) + 1][((q - 1) % v) + 1], d), basis, Iota(1, L * v))
         IN IF Len(nb) = (e + 1) * L * v THEN GrowRun(F, nb, s, e + 1, L, v, max, d) ELSE e
\* B(v, s) as a table [v][s + 1]
RunTable(os, d, L, stride, top, lsb, vmax) ==
    LET need(i) == Max({1} \cup {r \in 1..vmax : i + 1 <= d \div r + L})       \* how many bits of integer i can matter
        F == TLCEval([i \in 1..(d + L + 1) |-> [r \in 1..need(i - 1) |-> Vec(Functional(os, d, L, i - 1, BitPos((i - 1) % L, r, stride, top, lsb)), d)]])
    IN TLCEval([v \in 1..vmax |-> [s \in 1..L |-> GrowRun(F, << >>, s - 1, 0, L, v, d \div (L * v), d)]])
SimdK(B, L, v) == LET best(sm) == Max({L * B[v][((sm + w) % L) + 1] - (L - w) : w \in 1..L})
                  IN CHOOSE k \in {best(sm) : sm \in 0..(L - 1)} : \A sm \in 0..(L - 1) : k <= best(sm)
SimdDefect(B, L, mexp, vmax) == FoldLeft(LAMBDA acc, v : acc + (mexp \div v) - SimdK(B, L, v), 0, Iota(1, vmax))

\* the generator's own lanes have G bits
Lane(x, l, G) == {b - l * G : b \in {c \in x : c \div G = l}}
PutLane(y, l, G) == {b + l * G : b \in y}
Raw(j, sm, G, n) ==   \* n lanes of G bits from lane sm of word j-1 on (sm = 0: word j)
    IF sm = 0 THEN outs[j]
    ELSE UNION {PutLane(IF q + sm < n THEN Lane(outs[j - 1], q + sm, G) ELSE Lane(outs[j], q + sm - n, G), q, G) : q \in 0..(n - 1)}
Weighted(r, p, wm, G, n) == UNION {PutLane(Lane(IF q < wm THEN r ELSE p, q, G), q, G) : q \in 0..(n - 1)}

(***************************************************************************)
(* Actions.  pos: words handed out so far.                                 *)
(***************************************************************************)
Load(os, d, L, ps, sm, wm, t) ==
    outs' = os /\ dim' = d /\ lanes' = L /\ pos' = ps /\ smode' = sm /\ wmode' = wm /\ prev' = {} /\ tab' = t
GenWord(G, n, w) ==
    LET r == Raw(pos + 1, smode, G, n) IN
    /\ w = Weighted(r, prev, wmode, G, n)
    /\ pos' = pos + 1 /\ prev' = r
    /\ UNCHANGED << outs, dim, lanes, smode, wmode, tab >>
SetModes(sm, wm) == smode' = sm /\ wmode' = wm /\ prev' = {} /\ UNCHANGED << outs, dim, lanes, pos, tab >>
\* measurements do not touch the generator
BlockQuery(v, s, e) == e = tab[v][(s % lanes) + 1] /\ UNCHANGED svars
Measure(vmax, mexp, ks, sum) ==
    /\ ks = [v \in 1..vmax |-> SimdK(tab, lanes, v)]
    /\ sum = SimdDefect(tab, lanes, mexp, vmax)
    /\ UNCHANGED svars
=============================================================================
