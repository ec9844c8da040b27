---------------------------------- MODULE MT ----------------------------------
(***************************************************************************)
(* Mersenne Twister sources: objects with a ring of n words and a place in *)
(* it.  A word is the sequence of its bytes, least significant first, so   *)
(* 64-bit arithmetic stays within TLC's integers.  A kind gives the sizes  *)
(* and constants; "mt32" and "mt64" are the reference generators, other    *)
(* kinds are small models of the same algorithm (MCMT).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Bitwise, TLC

Seqn(a, b) == TLCEval([i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1])

\* ---- words
XorW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
AndW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrW(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
ByteAt(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
ShrW(a, k) == LET q == k \div 8  r == k % 8 IN
    TLCEval([i \in 1..Len(a) |-> ((ByteAt(a, i + q) + 256 * ByteAt(a, i + q + 1)) \div 2^r) % 256])
ShlW(a, k) == LET q == k \div 8  r == k % 8 IN
    TLCEval([i \in 1..Len(a) |-> (((ByteAt(a, i - q) * 256 + ByteAt(a, i - q - 1)) * 2^r) \div 256) % 256])
\* carry normalisation of a sequence of small integers (possibly negative)
Carried(s) == FoldLeft(LAMBDA st, x : LET t == x + st[2] IN << Append(st[1], t % 256), t \div 256 >>, << << >>, 0 >>, s)[1]
AddW(a, b) == Carried(TLCEval([i \in 1..Len(a) |-> a[i] + b[i]]))
MulW(a, b) == Carried(TLCEval([i \in 1..Len(a) |-> FoldLeft(LAMBDA t, j : t + a[j] * b[i + 1 - j], 0, Seqn(1, i))]))
\* add a small integer of either sign
AddI(a, n) == Carried(TLCEval([i \in 1..Len(a) |-> a[i] + (IF i = 1 THEN n ELSE 0)]))
Zeros(b)   == [i \in 1..b |-> 0]
OfInt(n, b) == AddI(Zeros(b), n)
Fit(a, b)  == TLCEval([i \in 1..b |-> ByteAt(a, i)])      \* truncated or zero extended

\* ---- kinds
Kind(k) ==
  CASE k = "mt32" ->
    [b |-> 4, n |-> 624, m |-> 397, sh |-> 30,
     upper |-> << 0, 0, 0, 128 >>, lower |-> << 255, 255, 255, 127 >>,
     a |-> << 223, 176, 8, 153 >>,                       \* 9908b0df
     mul |-> << 101, 137, 7, 108 >>,                     \* 1812433253 = 6c078965
     mul1 |-> << 13, 102, 25, 0 >>,                      \* 1664525    = 0019660d
     mul2 |-> << 101, 139, 88, 93 >>,                    \* 1566083941 = 5d588b65
     first |-> << 0, 0, 0, 128 >>,
     default |-> << 113, 21, 0, 0 >>]                    \* 5489
  [] k = "mt64" ->
    [b |-> 8, n |-> 312, m |-> 156, sh |-> 62,
     upper |-> << 0, 0, 0, 128, 255, 255, 255, 255 >>, lower |-> << 255, 255, 255, 127, 0, 0, 0, 0 >>,
     a |-> << 233, 25, 102, 169, 90, 111, 2, 181 >>,     \* B5026F5AA96619E9
     mul |-> << 45, 127, 149, 76, 45, 244, 81, 88 >>,    \* 6364136223846793005 = 5851F42D4C957F2D
     mul1 |-> << 133, 63, 165, 49, 15, 234, 157, 54 >>,   \* 3935559000370003845
     mul2 |-> << 253, 176, 176, 135, 230, 46, 187, 39 >>,    \* 2862933555777941757
     first |-> << 0, 0, 0, 0, 0, 0, 0, 128 >>,
     default |-> << 170, 214, 43, 1, 0, 0, 0, 0 >>]       \* 19650218
  [] k = "tiny" ->
    [b |-> 1, n |-> 4, m |-> 2, sh |-> 6, upper |-> << 240 >>, lower |-> << 15 >>, a |-> << 179 >>,
     mul |-> << 101 >>, mul1 |-> << 13 >>, mul2 |-> << 61 >>, first |-> << 128 >>, default |-> << 7 >>]
Temper(k, y) ==
  CASE k = "mt32" ->
         LET y1 == XorW(y, ShrW(y, 11))
             y2 == XorW(y1, AndW(ShlW(y1, 7), << 128, 86, 44, 157 >>))       \* 9d2c5680
             y3 == XorW(y2, AndW(ShlW(y2, 15), << 0, 0, 198, 239 >>))        \* efc60000
         IN XorW(y3, ShrW(y3, 18))
    [] k = "mt64" ->
         LET y1 == XorW(y, AndW(ShrW(y, 29), << 85, 85, 85, 85, 85, 85, 85, 85 >>))
             y2 == XorW(y1, AndW(ShlW(y1, 17), << 0, 0, 166, 237, 255, 127, 214, 113 >>))  \* 71D67FFFEDA60000
             y3 == XorW(y2, AndW(ShlW(y2, 37), << 0, 0, 0, 0, 224, 238, 247, 255 >>))      \* FFF7EEE000000000
         IN XorW(y3, ShrW(y3, 43))
    [] k = "tiny" -> XorW(y, ShrW(y, 3))
ArraySeedBase(b) == Fit(<< 170, 214, 43, 1 >>, b)         \* 19650218

\* ---- seeding: the ring is indexed 0..n-1
RingOf(s) == TLCEval([i \in 0..(Len(s) - 1) |-> s[i + 1]])
Mix(K, x) == XorW(x, ShrW(x, K.sh))
SeedRing(k, v) ==
    LET K == Kind(k) IN
    RingOf(FoldLeft(LAMBDA s, i : Append(s, AddI(MulW(K.mul, Mix(K, s[Len(s)])), i)), << Fit(v, K.b) >>, Seqn(1, K.n - 1)))
\* state of the array seeding: [mt, i, j]
Wrap(K, st) == IF st.i >= K.n THEN [st EXCEPT !.mt[0] = st.mt[K.n - 1], !.i = 1] ELSE st
Absorb(K, keys, st) ==
    LET w == AddI(AddW(XorW(st.mt[st.i], MulW(Mix(K, st.mt[st.i - 1]), K.mul1)), keys[st.j + 1]), st.j)
    IN Wrap(K, [mt |-> TLCEval([st.mt EXCEPT ![st.i] = w]), i |-> st.i + 1, j |-> (st.j + 1) % Len(keys)])
Stir(K, st) ==
    LET w == AddI(XorW(st.mt[st.i], MulW(Mix(K, st.mt[st.i - 1]), K.mul2)), -st.i)
    IN Wrap(K, [st EXCEPT !.mt[st.i] = w, !.i = @ + 1])
ArrayRing(k, keys0) ==
    LET K == Kind(k)
        keys == TLCEval([i \in 1..Len(keys0) |-> Fit(keys0[i], K.b)])
        s0 == [mt |-> SeedRing(k, ArraySeedBase(K.b)), i |-> 1, j |-> 0]
        s1 == FoldLeft(LAMBDA st, q : Absorb(K, keys, st), s0, Seqn(1, IF K.n > Len(keys) THEN K.n ELSE Len(keys)))
        s2 == FoldLeft(LAMBDA st, q : Stir(K, st), s1, Seqn(1, K.n - 1))
    IN [s2.mt EXCEPT ![0] = K.first]

\* ---- objects
VARIABLE objs      \* id -> [kind, mt, at]
Ids == DOMAIN objs
With(id, o) == [j \in Ids \cup {id} |-> IF j = id THEN o ELSE objs[j]]
NewObj(k, ring) == [kind |-> k, mt |-> ring, at |-> 0]

StepObj(o) ==
    LET K == Kind(o.kind)
        y == OrW(AndW(o.mt[o.at], K.upper), AndW(o.mt[(o.at + 1) % K.n], K.lower))
        w == XorW(XorW(o.mt[(o.at + K.m) % K.n], ShrW(y, 1)), IF y[1] % 2 = 1 THEN K.a ELSE Zeros(K.b))
    IN [o EXCEPT !.mt[o.at] = w, !.at = (o.at + 1) % K.n]
\* the word the last step produced
Produced(o) == LET K == Kind(o.kind) IN Temper(o.kind, o.mt[(o.at + K.n - 1) % K.n])

\* one read: <<object afterwards, value>>
Read32(o) == LET p == StepObj(o) IN
    IF Kind(o.kind).b = 8 THEN << p, SubSeq(Produced(p), 5, 8) >> ELSE << p, Produced(p) >>
Read64(o) == LET p == StepObj(o) IN
    IF Kind(o.kind).b = 8 THEN << p, Produced(p) >>
    ELSE LET q == StepObj(p) IN << q, Produced(q) \o Produced(p) >>       \* first value is the high half
\* k reads: <<object, values>>
Reads(o, port, k) ==
    FoldLeft(LAMBDA st, i : LET r == IF port = 32 THEN Read32(st[1]) ELSE Read64(st[1]) IN << r[1], Append(st[2], r[2]) >>,
             << o, << >> >>, Seqn(1, k))

Create(id, k)        == objs' = With(id, NewObj(k, SeedRing(k, Kind(k).default)))
Seed(id, k, v)       == objs' = With(id, NewObj(k, SeedRing(k, v)))
SeedArray(id, k, ks) == objs' = With(id, NewObj(k, ArrayRing(k, ks)))
Read(id, port, vals) == /\ id \in Ids
                        /\ LET r == Reads(objs[id], port, Len(vals)) IN r[2] = vals /\ objs' = With(id, r[1])
=============================================================================
