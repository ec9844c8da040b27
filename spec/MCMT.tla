--------------------------------- MODULE MCMT ---------------------------------
(* The ring implementation against the recurrence                              *)
(*   x(k+n) = x(k+m) + (upper x(k) | lower x(k+1)) A                           *)
(* for small models of the generator, two objects, every interleaving; array   *)
(* seeding never leaves the zero state; word arithmetic against the integers.  *)
EXTENDS MT
CONSTANT MaxReads
VARIABLE seqs      \* id -> all words so far (initial ring, then the produced ones)
vars == << objs, seqs >>
K == Kind("tiny")
Init == objs = << >> /\ seqs = << >>
Upd(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
RingSeq(r) == [i \in 1..K.n |-> r[i - 1]]
Seeds == {<< 0 >>, << 1 >>, << 128 >>, << 255 >>, << 77 >>}
Keys == {<< << 0 >> >>, << << 5 >>, << 200 >> >>, << << 1 >>, << 2 >>, << 3 >>, << 4 >>, << 5 >> >>}
Next ==
    \/ \E id \in 1..2, v \in Seeds : Seed(id, "tiny", v) /\ seqs' = Upd(seqs, id, RingSeq(objs'[id].mt))
    \/ \E id \in 1..2, ks \in Keys : SeedArray(id, "tiny", ks) /\ seqs' = Upd(seqs, id, RingSeq(objs'[id].mt))
    \/ \E id \in Ids : /\ Len(seqs[id]) < K.n + MaxReads
                       /\ objs' = With(id, StepObj(objs[id]))
                       /\ seqs' = Upd(seqs, id, Append(seqs[id], objs'[id].mt[objs[id].at]))
Spec == Init /\ [][Next]_vars
RecurrenceOK == \A id \in Ids : LET s == seqs[id] IN
    \A k \in 1..(Len(s) - K.n) :
        LET y == ((s[k][1] \div 16) * 16) + (s[k + 1][1] % 16)
            sh == y \div 2
            t  == IF y % 2 = 1 THEN << sh ^^ 179 >> ELSE << sh >>
        IN s[k + K.n] = XorW(s[k + K.m], t)
RingOK == \A id \in Ids : LET s == seqs[id] o == objs[id] IN
    \A i \in 0..(K.n - 1) : o.mt[(o.at + i) % K.n] = s[Len(s) - K.n + 1 + i]
NonZero == \A ks \in Keys : ArrayRing("tiny", ks)[0] # << 0 >>
\* arithmetic on words against the integers (16-bit words)
Val(a) == a[1] + 256 * a[2]
W2 == {<< 0, 0 >>, << 255, 255 >>, << 1, 128 >>, << 200, 7 >>, << 13, 102 >>}
ArithOK == \A a, b \in W2 :
    /\ Val(AddW(a, b)) = (Val(a) + Val(b)) % 65536
    /\ Val(MulW(a, b)) = ((Val(a) % 65536) * b[1] + 256 * ((Val(a) * b[2]) % 65536)) % 65536
    /\ Val(AddI(a, 300)) = (Val(a) + 300) % 65536
    /\ Val(AddI(a, -3)) = (Val(a) + 65533) % 65536
    /\ \A k \in 0..15 : Val(ShrW(a, k)) = Val(a) \div 2^k
    /\ \A k \in 0..15 : Val(ShlW(a, k)) = ((Val(a) % 2^(16 - k)) * 2^k)
=============================================================================
