------------------------------- MODULE Lintest -------------------------------
(***************************************************************************)
(* The linearity tester and generators that deviate from linearity.        *)
(* A state is [v, n]: the vector and the number of outputs since seeding.  *)
(* dev is a sequence of deviations; the one at position at flips output    *)
(* bit bit of output number at: always ("const"), when both vector bits    *)
(* i and j are set ("and"), or on every output from at on ("sticky").      *)
(* join says how adding works: "xor" is the linear way.                    *)
(***************************************************************************)
EXTENDS Machine
CONSTANT Window
VARIABLES dev, join
lvars == << dev, join >>

Flips(s, k) == {d \in 1..Len(dev) :
    LET x == dev[d] IN
    \/ x.kind = "const" /\ x.at = k
    \/ x.kind = "and" /\ x.at = k /\ x.i \in s /\ x.j \in s
    \/ x.kind = "sticky" /\ x.at <= k /\ x.i \in s /\ x.j \in s}
OutWith(s, k) == FoldLeft(LAMBDA acc, d : IF d \in Flips(s, k) THEN Xor(acc, {dev[d].bit}) ELSE acc, Out(s), Iota(1, Len(dev)))
Join(a, b) == CASE join = "xor" -> Xor(a, b)
               [] join = "or" -> a \cup b
               [] join = "left" -> a
               [] join = "skip0" -> Xor(a, b \ {0})
\* the first Window outputs after state s (outputs are numbered from 0)
Future(s) == LET ss == StatesAfter(A, s, Window) IN TLCEval([i \in 1..Window |-> OutWith(ss[i], i - 1)])
SelfSumSilent(s) == LET f == Future(Join(s, s)) IN \A i \in 1..Window : f[i] = {}
SumAgrees(s, t) ==   \* the sum is made from t by adding s
    LET f == Future(s) g == Future(t) h == Future(Join(t, s)) IN \A i \in 1..Window : h[i] = Xor(f[i], g[i])
Verdict(s, t) == SelfSumSilent(s) /\ SumAgrees(s, t)
=============================================================================
