------------------------------- MODULE Temper -------------------------------
(***************************************************************************)
(* Tempering searches.  A generator has tempering parameters 1..np with    *)
(* patterns pats[i]; the output word y goes through                        *)
(*     y := y + ((y << shifts[i]) & pats[i])     for i = 1..np             *)
(* and possibly comes out bit-reversed.  The defect of a setting is the    *)
(* sum over accuracies of floor(n/v) - k(v).                               *)
(***************************************************************************)
EXTENDS Equi
VARIABLES shifts, pats, rev
tempervars == << shifts, pats, rev >>

\* output rows (from the least significant bit) after tempering
TemperOne(D, sh, p) == TLCEval([b \in 1..Len(D) |-> IF (b - 1) \in p /\ b > sh THEN Xor(D[b], D[b - sh]) ELSE D[b]])
TemperRows(D, shs, ps) == FoldLeft(LAMBDA acc, i : TemperOne(acc, shs[i], ps[i]), D, Iota(1, Len(ps)))
\* from the most significant end of what is read
TopOf(D, r) == IF r THEN D ELSE TopDown(D)

\* total defect over accuracies 1..w
TotalDefect(M, D, shs, ps, r, w) ==
    Defect(Dims(M, TopOf(TemperRows(D, shs, ps), r), w), Len(M), w)

(***************************************************************************)
(* The partial-pattern search: decides one block of one parameter.         *)
(* The block holds positions lo..hi-1 counted from the end the search      *)
(* starts at (least significant if lsb).                                   *)
(***************************************************************************)
BlockBits(lo, hi, lsb, w) == IF lsb THEN lo..(hi - 1) ELSE (w - hi)..(w - lo - 1)
WithBlock(ps, i, blk, p) == [ps EXCEPT ![i] = (ps[i] \ blk) \cup p]
BlockCosts(i, blk, lsb) ==
    TLCEval([p \in SUBSET blk |-> TotalDefect(A, C, shifts, WithBlock(pats, i, blk, p), lsb, Len(C))])
BestIn(cost) ==
    LET m == Min({cost[p] : p \in DOMAIN cost})
        best == {p \in DOMAIN cost : cost[p] = m}
        ones == Max({Cardinality(p) : p \in best})
    IN {p \in best : Cardinality(p) = ones}
Decide(i, blk, lsb, p) ==
    /\ p \in BestIn(BlockCosts(i, blk, lsb))
    /\ pats' = WithBlock(pats, i, blk, p)
    /\ UNCHANGED << A, C, st, open, shifts, rev >>
\* block starts of a search over tryLen bits in steps
Blocks(tryLen, step) == [k \in 1..((tryLen + step - 1) \div step) |->
                          << (k - 1) * step, IF k * step > tryLen THEN tryLen ELSE k * step >>]

(***************************************************************************)
(* The best-bits search: level v (from 0) re-decides every pattern bit that *)
(* can influence the output bit v places below the most significant one:   *)
(* bit w-1-v of each parameter, and for a parameter before another one also *)
(* the bit that the later shift moves there.  Bits below a parameter's     *)
(* shift have no effect and are not compared.                              *)
(***************************************************************************)
LevelBits(v, shs, w) ==          \* the set of << parameter, bit >> of one or two parameters
    {x \in {<< i, w - 1 - v >> : i \in 1..Len(shs)} \cup
           {<< i, w - 1 - v - shs[j] >> : i \in 1..Len(shs), j \in 1..Len(shs)} :
        x[2] >= shs[x[1]] /\ (x[2] = w - 1 - v \/ \E j \in (x[1] + 1)..Len(shs) : x[2] = w - 1 - v - shs[j])}
Setting(ps, bits, T) == [i \in 1..Len(ps) |->
    {b \in ps[i] : << i, b >> \notin bits} \cup {x[2] : x \in {y \in T : y[1] = i}}]
LevelCandidates(S, v, shs, w) ==
    LET bits == LevelBits(v, shs, w) IN {Setting(ps, bits, T) : ps \in S, T \in SUBSET bits}
LevelSurvivors(M, D, S, v, shs) ==
    LET cand == LevelCandidates(S, v, shs, Len(D))
        cost == TLCEval([ps \in cand |-> TotalDefect(M, D, shs, ps, FALSE, v + 1)])
        m == Min({cost[ps] : ps \in cand})
    IN TLCEval({ps \in cand : cost[ps] = m})
Effective(ps, shs) == [i \in 1..Len(ps) |-> {b \in ps[i] : b >= shs[i]}]
=============================================================================
