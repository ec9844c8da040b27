------------------------------ MODULE Generators ------------------------------
(***************************************************************************)
(* The shipped generators as the recursions their parameter sets denote.   *)
(*                                                                         *)
(* A generator G is a record of its kind, its word width and its           *)
(* parameters; its state is [w, x]: the words it keeps, oldest first, and  *)
(* one extra word (dSFMT's lung).  Words are sets of bit positions.  The   *)
(* widths and shift amounts are fields of G, so that the same definitions  *)
(* describe the real generators (Real) and small ones whose whole state    *)
(* space can be enumerated (MCGenerators).                                 *)
(***************************************************************************)
EXTENDS GF2

Lo(n)        == 0..(n - 1)
ShlB(x, k, w) == {p + k : p \in {q \in x : q + k < w}}
ShrB(x, k)   == {p - k : p \in {q \in x : q >= k}}
\* shifts within lanes of s bits
LaneShl(x, k, s) == {p + k : p \in {q \in x : (q % s) + k < s}}
LaneShr(x, k, s) == {p - k : p \in {q \in x : q % s >= k}}
\* the two halves of a word exchanged crosswise by dSFMT: each lane of s bits
\* receives the other lane, rotated by half a lane
CrossRot(x, s) == {((((p \div s) + 1) % 2) * s) + (((p % s) + (s \div 2)) % s) : p \in x}
Cond(b, x)   == IF b THEN x ELSE {}
\* x ^= x << k (k > 0) or x ^= x >> -k, one after the other
Mixed(x, ks, w) == FoldLeft(LAMBDA t, k : Xor(t, IF k >= 0 THEN ShlB(t, k, w) ELSE ShrB(t, -k)), x, ks)

\* tempering of MT: t ^= (t >> u) & d;  (t << s) & b;  (t << t) & c;  t >> l
Tempered(G, y0) ==
    LET t == G.t
        y1 == Xor(y0, ShrB(y0, t.u) \cap t.d)
        y2 == Xor(y1, ShlB(y1, t.s, G.w) \cap t.b)
        y3 == Xor(y2, ShlB(y2, t.t, G.w) \cap t.c)
    IN Xor(y3, ShrB(y3, t.l))
\* exclusive or of the table entries selected by the low bits of x
Table(tbl, x) == FoldLeft(LAMBDA acc, i : IF (i - 1) \in x THEN Xor(acc, tbl[i]) ELSE acc, {}, Iota(1, Len(tbl)))

\* the word the recursion adds
NewWord(G, s) ==
    LET w == s.w  n == Len(w) IN
    CASE G.kind = "mt" ->
           LET y == (w[1] \cap (G.r..(G.w - 1))) \cup (w[2] \cap Lo(G.r))
           IN Xor(w[1 + G.m], Xor(ShrB(y, 1), Cond(0 \in y, G.a)))
      [] G.kind = "rmt" ->
           LET x == w[1]  y == w[1 + G.m]
           IN Xor(Xor(y, ShlB(y, G.ysh, G.w)), Xor(ShrB(x, 1), Cond(0 \in x, G.a)))
      [] G.kind = "mtgp" ->
           LET p0 == Xor(w[1] \cap (G.r..(G.w - 1)), w[2])
               p1 == Xor(p0, ShlB(p0, G.sh1, G.w))
               p3 == Xor(p1, ShrB(w[1 + G.m], G.sh2))
           IN Xor(p3, Table(G.tbl, p3))
      [] G.kind = "sfmt" ->
           XorSeq(<< w[1], ShlB(w[1], G.sl2, G.w), LaneShr(w[1 + G.m], G.sr1, G.lane) \cap G.msk,
                     ShrB(w[n - 1], G.sr2), LaneShl(w[n], G.sl1, G.lane) >>)
      [] G.kind = "dsfmt" ->
           LET lung == XorSeq(<< LaneShl(w[1], G.sl1, G.lane), CrossRot(s.x, G.lane), w[1 + G.m] >>)
           IN XorSeq(<< LaneShr(lung, G.sr, G.lane), lung \cap G.msk, w[1] >>)
      [] G.kind = "xs" -> Xor(Mixed(w[1], G.xops, G.w), Mixed(w[4], G.wops, G.w))
Tail1(s, v) == Append(Tail(s), v)

StepG(G, s) ==
    IF G.kind = "tiny" THEN
        LET x0 == XorSeq(<< s.w[1] \ {G.w - 1}, s.w[2], s.w[3] >>)
            x  == Xor(x0, ShlB(x0, G.sh0, G.w))
            y  == XorSeq(<< s.w[4], ShrB(s.w[4], G.sh0), x >>)
            o  == 0 \in y
        IN [w |-> << s.w[2], Xor(s.w[3], Cond(o, G.mat1)), XorSeq(<< x, ShlB(y, G.sh1, G.w), Cond(o, G.mat2) >>), y >>, x |-> {}]
    ELSE [w |-> Tail1(s.w, NewWord(G, s)),
          x |-> IF G.kind = "dsfmt"
                THEN XorSeq(<< LaneShl(s.w[1], G.sl1, G.lane), CrossRot(s.x, G.lane), s.w[1 + G.m] >>)
                ELSE {}]

\* the output, from the state after the step (the new word is the last)
OutG(G, s) ==
    LET w == s.w  n == Len(w) IN
    CASE G.kind \in {"mt", "rmt"} -> Tempered(G, w[n])
      [] G.kind = "mtgp" ->
           \* the word before the middle one selects the tempering
           LET t0 == w[G.m - 1]
               t1 == Xor(t0, ShrB(t0, G.fold[1]))
               t2 == Xor(t1, ShrB(t1, G.fold[2]))
           IN Xor(w[n], Table(G.tmp, t2))
      [] G.kind = "tiny" ->
           LET t1 == Xor(w[1], ShrB(w[3], G.sh8))
           IN XorSeq(<< w[4], t1, Cond(0 \in t1, G.tmat) >>)
      [] OTHER -> w[n]

\* bits of the state that matter (the others never influence the outputs)
Masked(G, s) ==
    CASE G.kind \in {"mt", "mtgp"} -> [s EXCEPT !.w[1] = @ \cap (G.r..(G.w - 1))]
      [] G.kind = "tiny" -> [s EXCEPT !.w[1] = @ \ {G.w - 1}]
      [] OTHER -> s
Bits(G) == CASE G.kind \in {"mt", "mtgp"} -> G.n * G.w - G.r
             [] G.kind = "tiny" -> 4 * G.w - 1
             [] G.kind = "dsfmt" -> (G.n + 1) * G.w        \* in the linear model every bit of a word is free
             [] OTHER -> G.n * G.w
Words(G) == IF G.kind \in {"tiny", "xs"} THEN 4 ELSE G.n

\* << state, outputs >> after k steps
RunStep(G, os, t) == << t, Append(os, TLCEval(OutG(G, t))) >>
RunG(G, s, k) == FoldLeft(LAMBDA st, i : RunStep(G, st[2], TLCEval(StepG(G, st[1]))), << s, << >> >>, Iota(1, k))
StatesG(G, s, k) == FoldLeft(LAMBDA st, i : Append(st, TLCEval(StepG(G, st[Len(st)]))), << s >>, Iota(1, k))

(***************************************************************************)
(* The real generators.  i: integers, w: words of the parameter set, in    *)
(* the order in which the programs print them.                             *)
(***************************************************************************)
Even64 == {2 * k : k \in 0..31}                \* 5555555555555555
HexDF == {0, 1, 2, 3, 4, 6, 7, 12, 13, 15, 19, 24, 27, 28, 31}      \* 9908b0df
Hex9D == {7, 9, 10, 12, 14, 18, 19, 21, 24, 26, 27, 28, 31}          \* 9d2c5680
HexEF == {17, 18, 22, 23, 24, 25, 26, 27, 29, 30, 31}                \* efc60000
MTLike(mexp, pos, a, b, c, u) ==
    [kind |-> "mt", w |-> 32, n |-> mexp \div 32 + 1, r |-> 32 * (mexp \div 32 + 1) - mexp, m |-> pos, a |-> a,
     t |-> [u |-> u, d |-> Lo(32), s |-> 7, b |-> b, t |-> 15, c |-> c, l |-> 18]]
XsLike(xops, wops) == [kind |-> "xs", w |-> 32, n |-> 4, xops |-> xops, wops |-> wops]
\* the eight shift patterns of xorshift-4
Pat(p, a, b, c) ==
    XsLike(CASE p \in {0, 2} -> << c >> [] p \in {1, 3} -> << -c >> [] p \in {4, 6} -> << -b, c >> [] OTHER -> << b, -c >>,
           CASE p \in {0, 1} -> << -a, b >> [] p \in {2, 3} -> << a, -b >> [] p \in {4, 5} -> << -a >> [] OTHER -> << a >>)
Real(k, i, w) ==
    CASE k = "tiny" -> [kind |-> "tiny", w |-> 32, n |-> 4, sh0 |-> 1, sh1 |-> 10, sh8 |-> 8, mat1 |-> w[1], mat2 |-> w[2], tmat |-> w[3]]
      [] k = "mt2"  -> MTLike(i[1], i[2], w[1], w[2], w[3], 12)
      [] k = "mt1"  -> MTLike(19937, 397, HexDF, Hex9D, HexEF, 11)
      [] k = "rmt"  -> [kind |-> "rmt", w |-> 64, n |-> i[1] \div 64 + 1, m |-> i[2], a |-> w[1], ysh |-> 17,
                        t |-> [u |-> 29, d |-> Even64, s |-> 17, b |-> w[2], t |-> 37, c |-> w[3], l |-> 43]]
      [] k = "mtgp" -> [kind |-> "mtgp", w |-> 32, n |-> i[1] \div 32 + 1, r |-> 32 * (i[1] \div 32 + 1) - i[1], m |-> i[2],
                        sh1 |-> i[3], sh2 |-> i[4], tbl |-> SubSeq(w, 1, 4), tmp |-> SubSeq(w, 5, 8), fold |-> << 16, 8 >>]
      [] k = "sfmt" -> [kind |-> "sfmt", w |-> 128, lane |-> 32, n |-> i[1] \div 128 + 1, m |-> i[2],
                        sl1 |-> i[3], sl2 |-> 8 * i[4], sr1 |-> i[5], sr2 |-> 8 * i[6], msk |-> w[1]]
      [] k = "dsfmt" -> [kind |-> "dsfmt", w |-> 128, lane |-> 64, n |-> (i[1] - 128) \div 104 + 1, m |-> i[2],
                        sl1 |-> i[3], sr |-> 12, msk |-> w[1]]
      [] k \in {"xs1", "xs2"} -> XsLike(<< 5, -14 >>, << -1 >>)
      [] k = "xs3"  -> XsLike(<< i[1], -i[2] >>, << -i[3] >>)
      [] k = "xs4"  -> Pat(i[1], i[2], i[3], i[4])
      [] k = "xs5"  -> XsLike(<< 11, -7 >>, << 20 >>)
WordBits(k) == CASE k = "rmt" -> 64 [] k \in {"sfmt", "dsfmt"} -> 128 [] OTHER -> 32

(***************************************************************************)
(* Seeding.  The arithmetic is done on byte sequences (module MT).         *)
(***************************************************************************)
M == INSTANCE MT WITH objs <- {}
BitsOf(bytes) == {p \in 0..(8 * Len(bytes) - 1) : (bytes[p \div 8 + 1] \div 2^(p % 8)) % 2 = 1}
BytesOf(x, n) == TLCEval([j \in 1..n |-> FoldLeft(LAMBDA v, b : v + (IF 8 * (j - 1) + b \in x THEN 2^b ELSE 0), 0, Iota(0, 7))])
Mul32 == << 101, 137, 7, 108 >>                        \* 1812433253
Mul64 == << 45, 127, 149, 76, 45, 244, 81, 88 >>       \* 6364136223846793005
Lcg(prev, i) == LET b == Len(prev) IN
    M!AddI(M!MulW(IF b = 4 THEN Mul32 ELSE Mul64, M!XorW(prev, M!ShrW(prev, 8 * b - 2))), i)
\* init: the words the expansion starts from; the words after the first are combined with it
Expanded(init, n) ==
    LET b == Len(init[1]) IN
    FoldLeft(LAMBDA s, i : Append(s, M!XorW(IF i + 1 <= Len(init) THEN init[i + 1] ELSE M!Zeros(b), Lcg(s[i], i))), << init[1] >>, Iota(1, n - 1))
Joined(ws, per) ==      \* consecutive words put together, the first least significant
    TLCEval([j \in 1..(Len(ws) \div per) |-> FoldLeft(LAMBDA acc, q : acc \o ws[(j - 1) * per + q], << >>, Iota(1, per))])
Pieces(bytes, b) == TLCEval([j \in 1..(Len(bytes) \div b) |-> SubSeq(bytes, (j - 1) * b + 1, j * b)])
AsBits(ws) == TLCEval([j \in 1..Len(ws) |-> BitsOf(ws[j])])
\* prefix: the constant in the high 12 bits of dSFMT's words
SeedG(G, v, prefix) ==
    CASE G.kind = "tiny" -> [w |-> << {}, {}, {}, BitsOf(v) >>, x |-> {}]
      [] G.kind = "xs"   -> [w |-> << BitsOf(v), BitsOf(v), BitsOf(v), Lo(32) \ BitsOf(v) >>, x |-> {}]
      [] G.kind = "sfmt" -> [w |-> AsBits(Joined(Expanded(Pieces(v, 4), 4 * G.n), 4)), x |-> {}]
      [] G.kind = "dsfmt" ->
           LET q == AsBits(Joined(Expanded(Pieces(v, 8), 2 * (G.n + 1)), 2))
           IN [w |-> TLCEval([j \in 1..G.n |-> {p \in q[j] : p % 64 < 52} \cup prefix]), x |-> q[G.n + 1]]
      [] OTHER -> [w |-> AsBits(Expanded(<< v >>, G.n)), x |-> {}]
\* The next step replaces the word after the one the position points at.  Where seeding leaves the
\* position at the first word, the words are read from the second on.
Rotated(k, s) == IF k \in {"sfmt", "dsfmt"} THEN [s EXCEPT !.w = Append(Tail(@), Head(@))] ELSE s
Seeded(k, G, v, prefix) == Rotated(k, SeedG(G, v, prefix))

(***************************************************************************)
(* Choosing parameters from a source.  raw: the values drawn, as byte      *)
(* sequences of the port's width.  Result [used, i, w]: values used, and   *)
(* the parameter set.                                                      *)
(***************************************************************************)
ModB(bytes, m) == FoldLeft(LAMBDA r, j : (r * 256 + bytes[Len(bytes) + 1 - j]) % m, 0, Iota(1, Len(bytes)))
Cut(x, hi, lo) == {p - lo : p \in {q \in x : q >= lo /\ q <= hi}}
Val(x) == FoldLeft(LAMBDA v, b : v + (IF b \in x THEN 2^b ELSE 0), 0, Iota(0, 29))
Up(x, k) == {p + k : p \in x}
MtgpPos(n, v) ==
    LET hi == IF n > 100 THEN n - FoldLeft(LAMBDA f, j : IF 2^j <= n THEN 2^j ELSE f, 1, Iota(0, 20)) - 1 ELSE n \div 2 - 1
    IN 3 + ModB(v, hi - 2)
\* id: set of bit positions; mexp where it matters
Chosen(k, mexp, id, raw) ==
    LET b(j) == BitsOf(raw[j]) IN
    CASE k = "tiny" ->
           LET num == b(1)
               w1  == XorSeq(<< num, ShlB(num, 15, 32), ShlB(num, 23, 32) >>)
               wk  == ShlB(w1, 1, 32)
               m1  == {p \in wk : p >= 16} \cup {p \in id : p < 16}
               m2  == {p \in wk : p < 16} \cup {p \in id : p >= 16}
           IN [used |-> 1, i |-> << >>, w |-> << Xor(m1, ShrB(m1, 19)), Xor(Xor(m2, ShlB(m2, 18, 32)), {0}) >>]
      [] k = "mt2" ->
           LET n == mexp \div 32 + 1 IN
           [used |-> 2, i |-> << mexp, ModB(raw[1], n - 2) + 2 >>, w |-> << {p \in b(2) : p >= 16} \cup id >>]
      [] k = "rmt" ->
           LET n == mexp \div 64 + 1 IN [used |-> 2, i |-> << mexp, ModB(raw[1], n) >>, w |-> << b(2) >>]
      [] k = "mtgp" ->
           LET n == mexp \div 32 + 1
               \* an entry must not cancel its own selector bit alone
               t(j) == LET x == b(j + 1) IN IF x \cap Lo(4) = {j - 1} THEN x \ {j - 1} ELSE x
           IN [used |-> 5, i |-> << mexp, MtgpPos(n, raw[1]), 13, 4 >>,
               w |-> << t(1), t(2), {p \in t(3) : p < 4 \/ p >= 20} \cup {p \in Up(id, 4) : p < 20},
                        {p \in t(4) : p < 16} \cup {p \in id : p >= 16} >>]
      [] k = "sfmt" ->
           LET n == mexp \div 128 + 1 IN
           [used |-> 13, i |-> << mexp, ModB(raw[1], n - 2) + 1, ModB(raw[2], 31) + 1, 2 * ModB(raw[3], 4) + 1,
                                  ModB(raw[4], 31) + 1, 2 * ModB(raw[5], 4) + 1 >>,
            w |-> << (b(6) \cup b(7)) \cup Up(b(8) \cup b(9), 32) \cup Up(b(10) \cup b(11), 64) \cup Up(b(12) \cup b(13), 96) >>]
      [] k = "dsfmt" ->
           LET n == (mexp - 128) \div 104 + 1  d == {p \in 0..63 : p < 52} IN
           [used |-> 6, i |-> << mexp, ModB(raw[1], n - 2) + 1, ModB(raw[2], 51) + 1 >>,
            w |-> << ((b(3) \cup b(4)) \cap d) \cup Up((b(5) \cup b(6)) \cap d, 64) >>]
      [] k = "xs3" -> [used |-> 1, i |-> << Val(Cut(b(1), 4, 0)), Val(Cut(b(1), 9, 5)), Val(Cut(b(1), 14, 10)) >>, w |-> << >>]
      [] k = "xs4" -> [used |-> 1, i |-> << Val(Cut(b(1), 17, 15)), Val(Cut(b(1), 14, 10)), Val(Cut(b(1), 9, 5)), Val(Cut(b(1), 4, 0)) >>, w |-> << >>]

(***************************************************************************)
(* Objects.  i, w: the parameter set of the recursion; t: the tempering    *)
(* words; e: further printed words (certification vector, fix point).      *)
(***************************************************************************)
VARIABLE objs
Ids == DOMAIN objs
With(id, o) == [j \in Ids \cup {id} |-> IF j = id THEN o ELSE objs[j]]
TemperWords(k) == CASE k = "tiny" -> 1 [] k \in {"mt2", "rmt"} -> 2 [] k = "mtgp" -> 4 [] OTHER -> 0
NoWords(n) == [j \in 1..n |-> {}]
ExtraWords(k) == CASE k = "rmt" -> NoWords(1) [] k = "sfmt" -> NoWords(1) [] k = "dsfmt" -> NoWords(2) [] OTHER -> << >>
GenOf(o) == Real(o.k, o.i, o.w \o o.t)

Create(id, k, mexp, idn, i, w, t) ==
    objs' = With(id, [k |-> k, mexp |-> mexp, id |-> idn, i |-> i, w |-> w, t |-> t, e |-> ExtraWords(k), s |-> << >>, prefix |-> {}, fix |-> 0])
\* from now on the shift amount of dSFMT is v and not drawn (0: drawn)
Fix(id, v) == objs' = With(id, [objs[id] EXCEPT !.fix = v])
\* parameters drawn from a source
Draws(k) == CASE k \in {"mt2", "rmt"} -> 2 [] k = "mtgp" -> 5 [] k = "sfmt" -> 13 [] k = "dsfmt" -> 6 [] OTHER -> 1
SetUp(id, raw) ==
  /\ Len(raw) = Draws(objs[id].k) - (IF objs[id].fix = 0 THEN 0 ELSE 1)
  /\
    LET o == objs[id]
        c0 == Chosen(o.k, o.mexp, o.id, IF o.fix = 0 THEN raw ELSE << raw[1], raw[1] >> \o Tail(raw))
        c == IF o.fix = 0 THEN c0 ELSE [c0 EXCEPT !.used = @ - 1, !.i[3] = o.fix]
    IN /\ Len(raw) = c.used
       /\ objs' = With(id, [o EXCEPT !.i = c.i, !.w = c.w, !.t = IF o.k = "tiny" THEN NoWords(1) ELSE @])
Pattern(id, mask, pat, src) ==
    objs' = With(id, [objs[id] EXCEPT !.t[src + 1] = (@ \ mask) \cup (pat \cap mask)])
Prefix(id, p) == objs' = With(id, [objs[id] EXCEPT !.prefix = p])
SeedAs(id, v) == objs' = With(id, [objs[id] EXCEPT !.s = Seeded(objs[id].k, GenOf(objs[id]), v, objs[id].prefix)])
Gen(id, ws)   == LET r == RunG(GenOf(objs[id]), objs[id].s, Len(ws)) IN
                 /\ ws = r[2] /\ objs' = With(id, [objs[id] EXCEPT !.s = r[1]])
Copy(id, to)  == objs' = With(to, objs[id])

\* what the parameter string says, field by field, numbers as sets of bit positions
Num(n) == {b \in 0..30 : (n \div 2^b) % 2 = 1}
Ints(s) == [j \in 1..Len(s) |-> Num(s[j])]
Lanes(x, w, n) == [j \in 1..n |-> {p - w * (j - 1) : p \in {q \in x : q \div w = j - 1}}]
Printed(o) ==
    CASE o.k = "tiny" -> << o.id >> \o o.w \o o.t
      [] o.k = "mt2"  -> << Num(o.mexp), o.id, Num(o.i[2]) >> \o o.w \o o.t
      \* bits the shifts never deliver are not printed
      [] o.k = "rmt"  -> << Num(o.mexp), Num(o.i[2]) >> \o o.w \o o.e \o << {b \in o.t[1] : b >= 17}, {b \in o.t[2] : b >= 37} >>
      [] o.k = "mtgp" -> << Num(o.mexp), o.id, Num(o.i[2]), Num(o.i[3]), Num(o.i[4]) >> \o o.w \o o.t
                         \o << {b \in Lo(32) : b >= 32 * (o.mexp \div 32 + 1) - o.mexp} >>
      [] o.k = "sfmt" -> Ints(o.i) \o Lanes(o.w[1], 32, 4) \o Lanes(o.e[1], 32, 4)
      [] o.k = "dsfmt" -> Ints(o.i) \o Lanes(o.w[1], 64, 2) \o Lanes(o.e[1], 64, 2) \o Lanes(o.e[2], 64, 2)
      [] o.k \in {"xs3", "xs4"} -> Ints(o.i)
      [] OTHER -> << >>
\* the certification vector and the fix point
Certify(id, j, x) == objs' = With(id, [objs[id] EXCEPT !.e[j] = x])
Said(id, fields) == Printed(objs[id]) = fields /\ UNCHANGED objs
=============================================================================
