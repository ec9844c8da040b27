---------------------------- MODULE MCSequential ----------------------------
(* Two narrow sources under every interleaving: every value is given exactly *)
(* once between seedings, in descending order of the unmasked value.         *)
EXTENDS Sequential
CONSTANT Width, MaxObj
VARIABLES out, from     \* values given since the last seeding; where the count started
vars == << objs, out, from >>
Nums == SUBSET (0..(Width - 1))
Val(s) == FoldLeft(LAMBDA r, p : 2 * r + (IF p \in s THEN 1 ELSE 0), 0, Down(Width - 1, 0))
Init == objs = << >> /\ out = << >> /\ from = << >>
Upd(f, k, v) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN v ELSE f[j]]
Next ==
    \/ \E id \in 1..MaxObj, m, s \in Nums : id \notin Ids /\ Create(id, Width, m, s) /\ out' = Upd(out, id, << >>) /\ from' = Upd(from, id, s)
    \/ \E id \in Ids, s \in Nums : Reseed(id, s) /\ out' = Upd(out, id, << >>) /\ from' = Upd(from, id, s)
    \/ \E id \in 1..MaxObj, f \in Ids : id # f /\ CopyOf(id, f) /\ out' = Upd(out, id, out[f]) /\ from' = Upd(from, id, from[f])
    \/ \E id \in Ids : ReadOK(id) /\ out' = Upd(out, id, Append(out[id], Value(id))) /\ UNCHANGED from
    \/ \E id \in Ids : ReadRefused(id) /\ UNCHANGED << out, from >>
Spec == Init /\ [][Next]_vars
OnceEach == \A id \in Ids :
    LET o == out[id] n == Len(o) IN
    /\ n <= Val(from[id]) + 1
    /\ \A i \in 1..n : Val(Xor(o[i], objs[id].mask)) = Val(from[id]) - (i - 1)
    /\ Refused(id) <=> n = Val(from[id]) + 1
=============================================================================
