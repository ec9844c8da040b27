------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size: sequences of base-1000 digits, least       *)
(* significant first, without leading zeros (<< >> is 0).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

BASE == 1000
BRange(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]
BDown(a, b)  == [i \in 1..(IF a >= b THEN a - b + 1 ELSE 0) |-> a - i + 1]

RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN << >> ELSE << c % BASE >> \o Carry(c \div BASE)
Nat2Big(n) == Carry(n)
RECURSIVE Norm(_)
Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxN(a, b) == IF a >= b THEN a ELSE b

\* a*m + c for small m (at most 10^6)
MulAddSmall(a, m, c) ==
    LET r == FoldLeft(LAMBDA st, i : LET t == a[i] * m + st[2] IN << Append(st[1], t % BASE), t \div BASE >>,
                      << << >>, c >>, BRange(1, Len(a)))
    IN Norm(r[1] \o Carry(r[2]))
\* <<a div m, a mod m>> for small m
DivSmall(a, m) ==
    LET r == FoldLeft(LAMBDA st, i : LET t == st[2] * BASE + a[i] IN << << t \div m >> \o st[1], t % m >>,
                      << << >>, 0 >>, BDown(Len(a), 1))
    IN << Norm(r[1]), r[2] >>
Less(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE LET d == {i \in 1..Len(a) : a[i] # b[i]} IN
         d # {} /\ LET t == CHOOSE i \in d : \A j \in d : j <= i IN a[t] < b[t]
\* r*BASE + y*x for digits y
ShiftAddMul(r, x, y) ==
    LET q == FoldLeft(LAMBDA st, i : LET t == (IF i = 1 THEN 0 ELSE Dig(r, i - 1)) + Dig(y, i) * x + st[2]
                                     IN << Append(st[1], t % BASE), t \div BASE >>,
                      << << >>, 0 >>, BRange(1, MaxN(Len(r) + 1, Len(y))))
    IN Norm(q[1] \o Carry(q[2]))
\* a - q*b, known to be >= 0
SubMul(a, q, b) ==
    LET r == FoldLeft(LAMBDA st, i : LET t == a[i] - q * Dig(b, i) - st[2]
                                     IN << Append(st[1], t % BASE), -(t \div BASE) >>,
                      << << >>, 0 >>, BRange(1, Len(a)))
    IN Norm(r[1])
\* one step of long division: <<quotient digit(s), remainder>> of a by p, a < p * BASE * few
\* the estimate from the leading digits never exceeds the true quotient
RECURSIVE ReduceStep(_, _)
ReduceStep(a, p) ==
    IF Less(a, p) THEN << 0, a >>
    ELSE LET n == Len(p)
             m == Len(a) - n
             \* leading digits of a, aligned with the two leading digits of p
             pt == IF n >= 2 THEN p[n] * BASE + p[n - 1] ELSE p[n]
             at == IF n >= 2
                   THEN ((Dig(a, n + 2) * BASE + Dig(a, n + 1)) * BASE + Dig(a, n)) * BASE + a[n - 1]
                   ELSE (Dig(a, 3) * BASE + Dig(a, 2)) * BASE + a[1]
             e  == IF n >= 2 THEN at \div (pt + 1) ELSE at \div pt
             q  == IF e = 0 THEN 1 ELSE e
             nx == ReduceStep(SubMul(a, q, p), p)
         IN << q + nx[1], nx[2] >>
\* <<quotient, remainder>>
DivModBig(a, p) ==
    FoldLeft(LAMBDA st, i : LET s == ReduceStep(ShiftAddMul(st[2], a[i], << 1 >>), p)
                            IN << MulAddSmall(<< 0 >> \o st[1], 1, s[1]), s[2] >>,
             << << >>, << >> >>, BDown(Len(a), 1))
ModBig(a, p) == FoldLeft(LAMBDA r, i : ReduceStep(ShiftAddMul(r, a[i], << 1 >>), p)[2], << >>, BDown(Len(a), 1))
MulMod(x, y, p) == FoldLeft(LAMBDA r, i : ReduceStep(ShiftAddMul(r, x[i], y), p)[2], << >>, BDown(Len(x), 1))
AddSmallBig(a, c) == MulAddSmall(a, 1, c)
Pred(a) == SubMul(a, 1, << 1 >>)
Pow2(k) == FoldLeft(LAMBDA r, i : MulAddSmall(r, 2, 0), << 1 >>, BRange(1, k))
MersenneNumber(k) == Pred(Pow2(k))

\* bits of n, most significant first
RECURSIVE BitsOfBig(_)
BitsOfBig(n) == IF n = << >> THEN << >> ELSE LET d == DivSmall(n, 2) IN Append(BitsOfBig(d[1]), d[2])
PowMod(b, bits, p) ==
    FoldLeft(LAMBDA r, i : LET s == MulMod(r, r, p)
                           IN IF bits[i] = 1 THEN ModBig(MulAddSmall(s, b, 0), p) ELSE s,
             << 1 >>, BRange(1, Len(bits)))

SmallOf(n) == Dig(n, 1) + Dig(n, 2) * BASE + (IF Len(n) >= 3 THEN n[3] * BASE * BASE ELSE 0)
TrialPrime(n) == n >= 2 /\ \A d \in 2..n : d * d > n \/ n % d # 0
RECURSIVE NoDivisorFrom(_, _)
NoDivisorFrom(n, d) == IF d * d > n THEN TRUE ELSE IF n % d = 0 THEN FALSE ELSE NoDivisorFrom(n, d + 2)
SmallPrime(n) == n = 2 \/ (n > 2 /\ n % 2 = 1 /\ NoDivisorFrom(n, 3))
\* strong probable prime to base b, n odd
RECURSIVE TwoPart(_)
TwoPart(n) == LET d == DivSmall(n, 2) IN IF d[2] = 1 THEN << 0, n >> ELSE LET r == TwoPart(d[1]) IN << r[1] + 1, r[2] >>
StrongProbablePrime(n, b) ==
    LET m1 == Pred(n)
        td == TwoPart(m1)
        x0 == PowMod(b, BitsOfBig(td[2]), n)
        w  == FoldLeft(LAMBDA st, i : IF st[2] THEN st ELSE LET y == MulMod(st[1], st[1], n) IN << y, y = m1 >>,
                       << x0, x0 = << 1 >> \/ x0 = m1 >>, BRange(1, td[1] - 1))
    IN w[2]
IsPrimeBig(n) ==
    IF Len(n) <= 2 THEN SmallPrime(SmallOf(n))
    ELSE n[1] % 2 = 1 /\ \A b \in {3, 5, 7, 11} : StrongProbablePrime(n, b)

(* Lucas-Lehmer: 2^k-1 is prime *)
LucasLehmer(k) ==
    IF k = 2 THEN TRUE
    ELSE LET M == MersenneNumber(k)
             Step(s) == LET q == MulMod(s, s, M) IN
                        IF Less(q, << 2 >>) THEN SubMul(M, 1, << 2 - Dig(q, 1) >>) ELSE SubMul(q, 1, << 2 >>)
         IN << >> = FoldLeft(LAMBDA s, i : Step(s), ModBig(<< 4 >>, M), BRange(1, k - 2))
=============================================================================
