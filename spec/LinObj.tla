------------------------------- MODULE LinObj -------------------------------
(***************************************************************************)
(* Generators as vectors.  An object is a formal sum of futures: the set   *)
(* of the pairs <<b, i>> with odd coefficient, where <<b, i>> stands for    *)
(* the future of the freshly started generator b after i outputs.  Every    *)
(* operation of a generator is an operation on formal sums; nothing else is *)
(* known of an object.  rev says whether truncated reads are bit-reversed.  *)
(***************************************************************************)
EXTENDS GF2

VARIABLES obj, rev, base, W
linvars == << obj, rev, base, W >>

OutAt(t)      == base[t[1]][t[2] + 1]
SumOf(f)      == FoldLeft(LAMBDA acc, t : Xor(acc, OutAt(t)), {}, SetToSeq(f))
Ahead(f, k)   == {<< t[1], t[2] + k >> : t \in f}
Output(f)     == SumOf(Ahead(f, 0))
\* the next h outputs are all zero
Silent(f, h)  == \A k \in 0..(h - 1) : SumOf(Ahead(f, k)) = {}
Leading(x, n, r) == LET y == IF r THEN {W - 1 - p : p \in x} ELSE x IN {p \in y : p >= W - n}

Start(o, b)   == obj' = [obj EXCEPT ![o] = {<< b, 0 >>}] /\ UNCHANGED << rev, base, W >>
Step(o)       == obj' = [obj EXCEPT ![o] = Ahead(@, 1)] /\ UNCHANGED << rev, base, W >>
Add(o, p)     == obj' = [obj EXCEPT ![o] = Xor(@, obj[p])] /\ UNCHANGED << rev, base, W >>
Clone(o, p)   == obj' = [obj EXCEPT ![p] = obj[o]] /\ rev' = [rev EXCEPT ![p] = rev[o]] /\ UNCHANGED << base, W >>
Clear(o)      == obj' = [obj EXCEPT ![o] = {}] /\ UNCHANGED << rev, base, W >>
Flip(o, r)    == rev' = [rev EXCEPT ![o] = r] /\ UNCHANGED << obj, base, W >>
\* the combination of the future of b by the polynomial p
Combine(o, b, p) == obj' = [obj EXCEPT ![o] = {<< b, i >> : i \in p}] /\ UNCHANGED << rev, base, W >>
\* sound answers of the zero test; h outputs determine a state when strict
ZeroOK(f, r, strict, h) ==
    IF f = {} THEN r
    ELSE IF Silent(f, h) THEN (strict => r) ELSE ~r
\* an object of unknown history: the answer of its zero test and its next outputs
FateOK(outs, r, strict) == IF \A k \in 1..Len(outs) : outs[k] = {} THEN (strict => r) ELSE ~r
=============================================================================
