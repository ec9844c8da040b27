----------------------------- MODULE MCMersenne -----------------------------
(* The list of exponents against the Lucas-Lehmer test and, for small ones,   *)
(* against the definition; BigNat against TLC's own integers; the striking    *)
(* out of primes against the definition of "prime divisor".                   *)
EXTENDS Factors, FiniteSets, FiniteSetsExt
CONSTANTS TopLL, TopSmall
VARIABLE n
allvars == << n, rem, struck >>
Init == n = 2 /\ rem = << 1 >> /\ struck = {}
Next == IF n < TopLL THEN n' = n + 1 /\ UNCHANGED fvars ELSE UNCHANGED allvars
Spec == Init /\ [][Next]_allvars
LLOK == SmallPrime(n) => (n \in MersenneExponents <=> LucasLehmer(n))
CompositeOK == ~SmallPrime(n) => n \notin MersenneExponents
SmallOK == n <= TopSmall =>
   LET m == 2^n - 1
       ps == {p \in 2..m : m % p = 0 /\ SmallPrime(p)}
   IN /\ SmallOf(MersenneNumber(n)) = m
      /\ << 1 >> = FoldLeft(LAMBDA r, p : StrikeOut(r, Nat2Big(p)), MersenneNumber(n), SetToSeq(ps))
      /\ \A q \in ps : << 1 >> # FoldLeft(LAMBDA r, p : StrikeOut(r, Nat2Big(p)), MersenneNumber(n), SetToSeq(ps \ {q}))
ArithOK == LET a == n * 7919 + 13  b == n * 31 + 7 IN
   /\ SmallOf(DivModBig(Nat2Big(a), Nat2Big(b))[1]) = a \div b
   /\ SmallOf(DivModBig(Nat2Big(a), Nat2Big(b))[2]) = a % b
   /\ SmallOf(MulMod(Nat2Big(a % 40000), Nat2Big(b), Nat2Big((a % 1009) + 2))) = ((a % 40000) * b) % ((a % 1009) + 2)
   /\ (n >= 5 /\ n % 2 = 1) => (SmallPrime(n) <=> (n % 3 # 0 \/ n = 3) /\ (n < 13 \/ \A b2 \in {3, 5, 7, 11} : StrongProbablePrime(Nat2Big(n), b2)))
=============================================================================
