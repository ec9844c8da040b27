----------------------------- MODULE MCXorShift -----------------------------
(* One-byte words: every seed, every key of at most KeyLen bytes: the start is    *)
(* not zero, and stepping never reaches zero (Steps further words).  The shipped  *)
(* step on 32-bit words is injective: the images of the 128 unit states are       *)
(* independent.                                                                   *)
EXTENDS XorShift
CONSTANTS KeyLen, Steps, Keys
GF == INSTANCE GF2
VARIABLES n
K == XKind("tiny")
R == XKind("real")
Bytes == {<< b >> : b \in Keys}
Init == /\ n = 0
        /\ xs \in {[i \in {1} |-> SeedState(K, << v >>)] : v \in 0..255}
             \cup {[i \in {1} |-> KeyState(K, ks)] : ks \in UNION {[1..k -> Bytes] : k \in 0..KeyLen}}
Next == n < Steps /\ n' = n + 1 /\ \E w \in {StepX(K, xs[1])[4]} : Gen(K, 1, w)
Spec == Init /\ [][Next]_<< xs, n >>
NonZero == ~IsZeroState(K, xs[1])
BitsOfState(s) == UNION {{32 * (i - 1) + 8 * (j - 1) + k : k \in {q \in 0..7 : (s[i][j] \div 2^q) % 2 = 1}} : i \in 1..4, j \in 1..4}
Unit(u) == [i \in 1..4 |-> [j \in 1..4 |-> IF u \div 8 = 4 * (i - 1) + j - 1 THEN 2^(u % 8) ELSE 0]]
ASSUME GF!RankOf([u \in 1..128 |-> BitsOfState(StepX(R, Unit(u - 1)))]) = 128
=============================================================================
