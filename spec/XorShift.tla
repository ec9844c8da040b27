------------------------------ MODULE XorShift ------------------------------
(***************************************************************************)
(* The xorshift128 library: objects of four words.  Words are byte         *)
(* sequences (module MT).  "real" is the shipped generator, "tiny" the same *)
(* algorithm on one-byte words for exhaustive models.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Bitwise, TLC

M == INSTANCE MT WITH objs <- {}
VARIABLE xs          \* id -> <<x, y, z, w>>

XKind(k) ==
  CASE k = "real" -> [b |-> 4, a |-> 20, bb |-> 11, c |-> 7, sh |-> 30, fs |-> 27,
                      mul |-> << 101, 137, 7, 108 >>, m1 |-> << 13, 102, 25, 0 >>, m2 |-> << 101, 139, 88, 93 >>,
                      cert |-> << << 79, 0, 88, 0 >>, << 83, 0, 82, 0 >>, << 73, 0, 72, 0 >>, << 84, 0, 70, 0 >> >>]   \* X O R S H I F T
    [] k = "tiny" -> [b |-> 1, a |-> 5, bb |-> 3, c |-> 2, sh |-> 6, fs |-> 5,
                      mul |-> << 101 >>, m1 |-> << 13 >>, m2 |-> << 61 >>,
                      cert |-> << << 79 >>, << 83 >>, << 73 >>, << 84 >> >>]
IsZeroState(K, s) == \A i \in 1..4 : s[i] = M!Zeros(K.b)

\* the recurrence
StepX(K, s) ==
    LET t0 == M!XorW(s[1], M!ShlW(s[1], K.bb))
        t  == M!XorW(t0, M!ShrW(t0, K.c))
    IN << s[2], s[3], s[4], M!XorW(M!XorW(s[4], M!ShlW(s[4], K.a)), t) >>

\* seeding by a number: eight words of the linear congruential expansion, the last four kept
Expand(K, v) ==
    FoldLeft(LAMBDA s, i : Append(s, M!AddI(M!MulW(K.mul, M!XorW(s[i], M!ShrW(s[i], K.sh))), i)), << M!Fit(v, K.b) >>, M!Seqn(1, 7))
SeedState(K, v) == SubSeq(Expand(K, v), 5, 8)

\* seeding by a key: absorb, fill up to the least number of rounds, stir
F1(K, x) == M!MulW(M!XorW(x, M!ShrW(x, K.fs)), K.m1)
F2(K, x) == M!MulW(M!XorW(x, M!ShrW(x, K.fs)), K.m2)
G(st, i) == st[(i % 4) + 1]
Put3(st, i, r, v, f(_, _)) ==       \* position i gets v; the next two are combined with r and v
    LET n1 == ((i + 1) % 4) + 1  n2 == ((i + 2) % 4) + 1
    IN TLCEval([k \in 1..4 |-> IF k = (i % 4) + 1 THEN v ELSE IF k = n1 THEN f(st[k], r) ELSE IF k = n2 THEN f(st[k], v) ELSE st[k]])
AbsorbX(K, s, w) ==
    LET i == s.i
        r == F1(K, M!XorW(M!XorW(G(s.st, i), G(s.st, i + 1)), G(s.st, i + 3)))
        v == M!AddW(r, w)
    IN [st |-> Put3(s.st, i, r, v, M!AddW), i |-> (i + 1) % 4]
StirX(K, s) ==
    LET i == s.i
        r == F2(K, M!AddW(M!AddW(G(s.st, i), G(s.st, i + 1)), G(s.st, i + 3)))
        v == M!AddI(r, -i)
    IN [st |-> Put3(s.st, i, r, v, M!XorW), i |-> (i + 1) % 4]
KeyMix(K, keys) ==
    LET n == Len(keys)
        rounds == IF n + 1 > 8 THEN n + 1 ELSE 8
        z == M!Zeros(K.b)
        s0 == AbsorbX(K, [st |-> << z, z, z, z >>, i |-> 0], M!OfInt(n, K.b))
        s1 == FoldLeft(LAMBDA s, j : AbsorbX(K, s, M!AddI(IF j <= n THEN keys[j] ELSE z, s.i)), s0, M!Seqn(1, rounds - 1))
    IN FoldLeft(LAMBDA s, j : StirX(K, s), s1, M!Seqn(1, 4)).st
KeyState(K, keys) == LET s == KeyMix(K, keys) IN IF IsZeroState(K, s) THEN K.cert ELSE s

Ids == DOMAIN xs
WithX(id, s) == [j \in Ids \cup {id} |-> IF j = id THEN s ELSE xs[j]]
Seed(K, id, v)    == xs' = WithX(id, SeedState(K, v))
Array(K, id, ks)  == xs' = WithX(id, KeyState(K, ks))
Gen(K, id, w)     == id \in Ids /\ LET s == StepX(K, xs[id]) IN w = s[4] /\ xs' = WithX(id, s)
=============================================================================
