------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The search programs as processes: a command is refused or searched for; *)
(* a search takes candidates from its source, passes over those that do    *)
(* not qualify and prints the others, each truthfully described, until as  *)
(* many as requested are printed or the source is exhausted.               *)
(*                                                                         *)
(* A command is [prog, opts, pos]; an option or positional argument is     *)
(* [o, k, v]: its letter, the kind of its argument ("none", "missing",     *)
(* "num", "junk", "path", "badpath") and for numbers the value as a set of *)
(* bit positions of any size.                                              *)
(***************************************************************************)
EXTENDS Generators, Packed

(***************************************************************************)
(* Commands                                                                *)
(***************************************************************************)
Val31(x) == FoldLeft(LAMBDA v, b : v + (IF b \in x THEN 2^b ELSE 0), 0, Iota(0, 30))
Fits(v, n) == \A b \in v : b < n
Mt521 == {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}
Mexps(p) == CASE p \in {"mt2", "rmt"} -> Mt521
              [] p = "sfmt" -> Mt521 \ {521, 2203}
              [] p = "dsfmt" -> {521, 1279, 2203, 4253, 11213, 19937, 44497}
              [] p = "mtgp" -> {3217, 4423, 11213, 23209, 44497, 110503, 216091}
              [] OTHER -> {}
\* numeric options with the number of bits their value may have; -1: not an option of the program
OptBits(p, o) ==
    CASE o = "c" /\ p = "mtgp" -> 63
      [] o = "c" -> 31
      [] o = "m" /\ p \in {"tiny", "mt2"} -> 31
      [] o = "s" /\ p = "tiny" -> 31
      [] o = "s" /\ p \in {"mt2", "rmt", "sfmt", "dsfmt"} -> 64
      [] o = "x" /\ p = "dsfmt" -> 31
      [] OTHER -> -1
OptOK(p, a) ==
    CASE a.o = "v" -> TRUE
      [] a.o = "a" -> p = "tiny"
      [] a.o = "f" -> p # "mt2" /\ a.k = "path"
      [] a.o = "x" /\ a.k = "none" -> p = "dsfmt"
      [] a.o = "s" /\ p = "mtgp" -> a.k # "missing"
      [] OptBits(p, a.o) >= 0 -> a.k = "num" /\ Fits(a.v, OptBits(p, a.o))
      [] OTHER -> FALSE
IsNum(a, S) == a.k = "num" /\ \E m \in S : Num(m) = a.v
PosOK(p, pos) ==
    CASE p = "tiny" -> Len(pos) >= 1 /\ pos[1].k = "num" /\ Fits(pos[1].v, 32)
      [] p = "mt2"  -> Len(pos) >= 2 /\ IsNum(pos[1], Mexps(p)) /\ pos[2].k = "num" /\ Fits(pos[2].v, 16)
      [] p = "mtgp" -> Len(pos) >= 2 /\ IsNum(pos[1], Mexps(p)) /\ pos[2].k = "num" /\ Fits(pos[2].v, 32)
      [] p \in {"rmt", "sfmt", "dsfmt"} -> Len(pos) >= 1 /\ IsNum(pos[1], Mexps(p))
      [] OTHER -> TRUE
WellFormed(c) == (\A i \in 1..Len(c.opts) : OptOK(c.prog, c.opts[i])) /\ PosOK(c.prog, c.pos)

\* the last value given counts
Given(c, o) == {i \in 1..Len(c.opts) : c.opts[i].o = o}
Arg(c, o, dflt) == IF Given(c, o) = {} THEN dflt ELSE c.opts[Max(Given(c, o))].v
Count(c)    == Val31(Arg(c, "c", {0}))
MaxDelta(c) == IF c.prog = "tiny" THEN Val31(Arg(c, "m", {1, 3})) ELSE Val31(Arg(c, "m", Lo(31)))
ToFile(c)   == Given(c, "f") # {}
MexpOf(c)   == CHOOSE m \in Mexps(c.prog) : Num(m) = c.pos[1].v
IdOf(c)     == CASE c.prog = "tiny" -> c.pos[1].v [] c.prog \in {"mt2", "mtgp"} -> c.pos[2].v [] OTHER -> {}
\* what determines the sets a program finds (how many are wanted does not)
KeyOf(c) == << c.prog, c.pos, Arg(c, "s", {}), Arg(c, "m", {99}), Given(c, "x") # {}, Arg(c, "x", {}) >>
Endless(c) == c.prog \in {"xs3", "xs4"} \/ (c.prog = "tiny" /\ Given(c, "a") # {})

(***************************************************************************)
(* What is printed about a set                                             *)
(***************************************************************************)
XorSt(s, t) == [w |-> TLCEval([j \in 1..Len(s.w) |-> Xor(s.w[j], t.w[j])]), x |-> Xor(s.x, t.x)]
NullSt(s)   == [w |-> [j \in 1..Len(s.w) |-> {}], x |-> {}]
\* the state p(A) s
PolyOnTo(G, p, s, d) ==
    FoldLeft(LAMBDA st, j : << IF j < d THEN TLCEval(StepG(G, st[1])) ELSE st[1],
                               IF j \in p THEN TLCEval(XorSt(st[2], st[1])) ELSE st[2] >>,
             << s, NullSt(s) >>, Iota(0, d))[2]
PolyOn(G, p, s) == CHOOSE t \in {PolyOnTo(G, p, s, d) : d \in {Deg(p)}} : TRUE
IsNull(G, s) == Masked(G, s) = NullSt(s)
\* some nonzero state s satisfies p(A) s = 0: if p is irreducible of the degree of the state space,
\* it is the characteristic polynomial
Annuls(G, p, s) == ~IsNull(G, s) /\ IsNull(G, PolyOn(G, p, s))
\* a generator that is not of maximal period: some state lies in a proper invariant subspace,
\* or A^E = 1 for E less than 2^n - 1
NotMaximal(G, p, s) == p # {} /\ Deg(p) < Bits(G) /\ Annuls(G, p, s)
(***************************************************************************)
(* Order of x modulo a polynomial of degree 128.  2^128 - 1 is the product *)
(* of the Fermat numbers 2^m + 1, m = 1, 2, 4, .., 64; the last two are    *)
(* 641 * 6700417 and 274177 * 67280421310721 (MCReport checks the          *)
(* products; C03 that these are all the prime factors).                    *)
(***************************************************************************)
PowP(y, E, f) == FoldLeft(LAMBDA r, b : LET q == SqMod(r, f) IN IF b \in E THEN Mod(Mul(q, y), f) ELSE q, Mod(One, f), Down(Deg(E), 0))
OverFermat(m) == {2 * m * i + b : i \in 0..(64 \div m - 1), b \in 0..(m - 1)}        \* (2^128 - 1) / (2^m + 1)
P641 == {0, 7, 9}
P6700417 == {0, 7, 8, 10, 11, 12, 13, 17, 18, 21, 22}
P274177 == {0, 8, 9, 10, 11, 13, 18}
PBig == {0, 8, 12, 14, 15, 18, 19, 20, 23, 24, 28, 29, 30, 31, 36, 37, 40, 42, 43, 44, 45}
MaxOrder128(f) ==
    /\ \A m \in {1, 2, 4, 8, 16} : PowX(OverFermat(m), f) # One
    /\ LET y == PowX(OverFermat(32), f) IN PowP(y, P6700417, f) # One /\ PowP(y, P641, f) # One
    /\ LET y == PowX(OverFermat(64), f) IN PowP(y, PBig, f) # One /\ PowP(y, P274177, f) # One
ShortOrder128(f, E) == E # {} /\ Fits(E, 128) /\ E # Lo(128) /\ PowX(E, f) = One

\* the table of dimensions of a space of dimension d, and its defect
DefectOf(ks, d) == FoldLeft(LAMBDA acc, v : acc + (d \div v) - ks[v], 0, Iota(1, Len(ks)))

\* candidate number n of a counting source
CandBytes(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
CandOf(c, n) == Chosen(c.prog, 0, IdOf(c), << CandBytes(n) >>)
CandGen(c, n) == LET p == CandOf(c, n) IN Real(c.prog, p.i, IF c.prog = "tiny" THEN p.w \o NoWords(1) ELSE p.w)

(***************************************************************************)
(* Lines: the numbers of a printed set, in order, as sets of bit positions *)
(***************************************************************************)
Size(p, f) == CASE p = "tiny" -> 7 [] p = "mt2" -> 7 [] p = "rmt" -> 7 [] p = "mtgp" -> 16 [] p = "sfmt" -> 17 [] p = "dsfmt" -> 10 [] p = "xs3" -> 4 [] p = "xs4" -> 5
DeltaOf(p, f) == Val31(IF p \in {"xs3", "xs4"} THEN f[1] ELSE f[Len(f)])
Plus1(x) == LET k == CHOOSE k \in 0..64 : k \notin x /\ \A b \in Lo(k) : b \in x IN (x \ Lo(k)) \cup {k}
AddN(x, n) == FoldLeft(LAMBDA y, i : Plus1(y), x, Iota(1, n))
\* the line belongs to the command: exponent, identifier, and for counting sources the candidate
Belongs(c, f, n, k) ==
    /\ Len(f) = Size(c.prog, f)
    /\ CASE c.prog = "tiny" -> f[2] = IdOf(c) /\ << f[3], f[4] >> = CandOf(c, n).w
         [] c.prog \in {"xs3", "xs4"} -> SubSeq(f, 2, Len(f)) = Ints(CandOf(c, n).i)
         [] c.prog = "mt2" -> f[1] = c.pos[1].v /\ f[2] = IdOf(c) /\ {b \in f[4] : b < 16} = IdOf(c)
         \* every set has the next identifier
         [] c.prog = "mtgp" -> f[1] = c.pos[1].v /\ f[2] = {b \in AddN(IdOf(c), k) : b < 32}
         [] OTHER -> f[1] = c.pos[1].v /\ (c.prog = "dsfmt" /\ Given(c, "x") # {} => f[3] = Arg(c, "x", Num(19)))

(***************************************************************************)
(* State: the run in progress and what earlier runs printed                *)
(***************************************************************************)
VARIABLES run, seen
rvars == << run, seen >>
Idle == [phase |-> "idle"]
Counting(p) == p \in {"tiny", "xs3", "xs4"}
From(c) == CASE c.prog = "tiny" -> Val31(Arg(c, "s", Lo(31))) [] c.prog = "xs3" -> 32767 [] c.prog = "xs4" -> 262143 [] OTHER -> 0
Start(c) ==
    /\ run.phase = "idle"
    /\ run' = IF WellFormed(c) THEN [phase |-> "search", cmd |-> c, lines |-> << >>, at |-> From(c)]
                               ELSE [phase |-> "refuse", cmd |-> c, lines |-> << >>, at |-> 0]
    /\ UNCHANGED seen
Wanted == Endless(run.cmd) \/ Len(run.lines) < Count(run.cmd)
\* the next candidate does not qualify
Pass(n) ==
    /\ run.phase \in {"search", "scan"} /\ Counting(run.cmd.prog) /\ n = run.at /\ n >= 0 /\ Wanted
    /\ run' = [run EXCEPT !.at = n - 1] /\ UNCHANGED seen
\* candidate n (for counting sources at or after the present one: sets in between are passed over) is printed
Emit(f, n) ==
    /\ run.phase = "search" /\ Wanted
    /\ (Counting(run.cmd.prog) => (n <= run.at /\ n >= 0)) = TRUE
    /\ run' = [run EXCEPT !.at = IF Counting(run.cmd.prog) THEN n - 1 ELSE @, !.lines = Append(@, << n, f >>)]
    /\ UNCHANGED seen
Exhausted == Counting(run.cmd.prog) /\ run.at < 0
\* what a run printed agrees with what earlier runs of the same search printed
Agree(a, b) == \A i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] = b[i]
Listed(k) == IF k \in DOMAIN seen THEN seen[k] ELSE << >>
Remember(k, ls) == seen' = [x \in (DOMAIN seen) \cup {k} |-> IF x = k THEN (IF Len(ls) > Len(Listed(k)) THEN ls ELSE Listed(k)) ELSE seen[x]]
\* another seed leads to other sets
\* (mt2 and sfmtdc use 32 bits of it)
Low32(x) == {b \in x : b < 32}
SeedIn(k) == IF k[1] \in {"mt2", "sfmt"} THEN Low32(k[3]) ELSE k[3]
Others(k, ls) == Counting(k[1]) \/ ls = << >> \/
    \A j \in DOMAIN seen : (j[1] = k[1] /\ j[2] = k[2] /\ j[5] = k[5] /\ j[6] = k[6] /\ SeedIn(j) # SeedIn(k) /\ seen[j] # << >>) => seen[j][1] # ls[1]
Finish(code, usage) ==
    /\ run.phase \in {"search", "refuse"}
    /\ IF run.phase = "refuse" THEN code # 0 /\ usage /\ run.lines = << >> /\ UNCHANGED seen
       ELSE /\ code = 0 /\ ~usage
            /\ (~Wanted \/ Exhausted) = TRUE
            /\ Agree(run.lines, Listed(KeyOf(run.cmd)))
            /\ Others(KeyOf(run.cmd), run.lines) = TRUE
            /\ Remember(KeyOf(run.cmd), run.lines)
    /\ run' = Idle
\* a complete listing: what it leaves out is looked at in windows
FinishListing(code) ==
    /\ run.phase = "search" /\ code = 0
    /\ Agree(run.lines, Listed(KeyOf(run.cmd))) /\ Remember(KeyOf(run.cmd), run.lines)
    /\ run' = Idle
Scan(c, hi) == run.phase = "idle" /\ run' = [phase |-> "scan", cmd |-> c, lines |-> << >>, at |-> hi] /\ UNCHANGED seen
EndScan(lo) == run.phase = "scan" /\ run.at = lo - 1 /\ run' = Idle /\ UNCHANGED seen

(***************************************************************************)
(* The description of a printed set.  p: the polynomial; s0: a seed;       *)
(* ks: the table of dimensions; q: cofactor of p (reducible generators).   *)
(***************************************************************************)
Outs(G, s, k) == RunG(G, s, k)[2]
\* k(v) of the outputs
SI == INSTANCE Simd WITH A <- << >>, C <- << >>, st <- {}, open <- << >>, outs <- << >>, dim <- 0, lanes <- 0, pos <- 0,
                        smode <- 0, wmode <- 0, prev <- {}, tab <- << >>
DimAt(os, w, d, v) ==
    SI!Grow(TLCEval([i \in 1..v |-> [j \in 1..(d \div v) |-> Vec({t \in 0..(d - 1) : (w - i) \in os[j + t]}, d)]]), << >>, 0, v, d \div v, d)
\* words read as L integers of `stride` bits with leading bit `top`: the dimension the measurement proves for v bits
SimdAt(os, d, L, stride, top, v) ==
    LET n == (d \div v) + L + 1
        F == TLCEval([i \in 1..n |-> [r \in 1..v |-> Vec(SI!Functional(os, d, L, i - 1, SI!BitPos((i - 1) % L, r, stride, top, FALSE)), d)]])
    IN CHOOSE k \in {SI!SimdK(B, L, v) : B \in {[x \in {v} |-> TLCEval([q \in 1..L |-> SI!GrowRun(F, << >>, q - 1, 0, L, v, d \div (L * v), d)])]}} : TRUE
TinyOf(f) == Real("tiny", << >>, << f[3], f[4], f[5] >>)
MtOf(f)   == Real("mt2", << Val(f[1]), Val(f[3]) >>, << f[4], f[5], f[6] >>)
MtgpOf(f) == Real("mtgp", << Val(f[1]), Val(f[3]), Val(f[4]), Val(f[5]) >>, SubSeq(f, 6, 13))
RmtOf(f)  == Real("rmt", << Val(f[1]), Val(f[2]) >>, << f[3], f[5], f[6] >>)
LanesUp(fs, w) == UNION {Up(fs[j], w * (j - 1)) : j \in 1..Len(fs)}
SfmtOf(f) == Real("sfmt", [j \in 1..6 |-> Val(f[j])], << LanesUp(SubSeq(f, 7, 10), 32) >>)
DsfmtOf(f) == Real("dsfmt", [j \in 1..3 |-> Val(f[j])], << LanesUp(SubSeq(f, 4, 5), 64) >>)
XsOf(k, f) == Real(k, [j \in 1..(Len(f) - 1) |-> Val(f[j + 1])], << >>)
OfLine(k, f) == CASE k = "tiny" -> TinyOf(f) [] k = "mt2" -> MtOf(f) [] k = "mtgp" -> MtgpOf(f) [] k = "rmt" -> RmtOf(f)
                  [] k = "sfmt" -> SfmtOf(f) [] k = "dsfmt" -> DsfmtOf(f) [] OTHER -> XsOf(k, f)
\* maximal period: an irreducible polynomial of full degree annihilates a nonzero state
\* (irr: irreducibility established elsewhere, for degrees beyond the reach of this definition)
IrrOr(irr, p) == IF irr THEN TRUE ELSE Irreducible(p)
Maximal(G, p, s, irr) == Deg(p) = Bits(G) /\ IrrOr(irr, p) /\ Annuls(G, p, s)
\* reducible generators: the part of the state that belongs to p
HasFactor(G, p, q, s, irr) == IrrOr(irr, p) /\ \A t \in {PolyOn(G, q, s)} : Annuls(G, p, t)
\* states the generator can be in: dSFMT's words are mantissas of 52 bits
Proper(G, s) == G.kind = "dsfmt" => \A j \in 1..Len(s.w) : \A b \in s.w[j] : b % G.lane < 52
\* a certification vector never selects a state (after a step) without a part in p: word(..) is the certified word
CertWord(G, s) == IF G.kind = "dsfmt" THEN s.x ELSE s.w[Len(s.w)]
CertifiesLine(G, p, s, v, k) ==
    /\ v # {}
    /\ \A ts \in {StatesG(G, StepG(G, PolyOn(G, p, s)), k)} : \A j \in 1..Len(ts) : ~Odd(CertWord(G, ts[j]) \cap v)
=============================================================================
