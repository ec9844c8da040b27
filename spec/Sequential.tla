----------------------------- MODULE Sequential -----------------------------
(***************************************************************************)
(* Sequential parameter sources: a collection of objects, each counting    *)
(* down from where it was seeded to 0 and then refusing.  A value is given *)
(* out masked.  Numbers are sets of bit positions (any width).             *)
(***************************************************************************)
EXTENDS GF2
VARIABLE objs         \* object id -> [w, next, mask, done]
Ids == DOMAIN objs

Dec(s, w) == IF s = {} THEN 0..(w - 1) ELSE (s \ {Min(s)}) \cup 0..(Min(s) - 1)
AllOnes(w) == 0..(w - 1)
Fresh(w, mask, start) == [w |-> w, next |-> start, mask |-> mask, done |-> FALSE]
With(id, o) == [j \in Ids \cup {id} |-> IF j = id THEN o ELSE objs[j]]

Create(id, w, mask, start) == objs' = With(id, Fresh(w, mask, start))
CopyOf(id, from)  == from \in Ids /\ objs' = With(id, objs[from])
Reseed(id, v)     == id \in Ids /\ objs' = With(id, [objs[id] EXCEPT !.next = v \cap AllOnes(objs[id].w), !.done = FALSE])
Refused(id)       == objs[id].done
Value(id)         == Xor(objs[id].next, objs[id].mask)
\* a read through a port of `port` bits
Given(id, port)   == Value(id) \cap AllOnes(port)
Advance(id)       == objs' = With(id, [objs[id] EXCEPT !.next = Dec(@, objs[id].w), !.done = (objs[id].next = {})])
ReadOK(id)        == id \in Ids /\ ~Refused(id) /\ Advance(id)
ReadRefused(id)   == id \in Ids /\ Refused(id) /\ UNCHANGED objs
=============================================================================
