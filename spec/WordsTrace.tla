------------------------------ MODULE WordsTrace ------------------------------
(* Validates recorded uses of the word helpers (C18) and 128-bit words (C19). *)
EXTENDS Words, TraceBase
VARIABLE l
tvars == << reg, W, l >>
TraceInit == l = 1 /\ reg = {} /\ W = 32
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
E == Trace[l]
TraceLoad   == IsEvent("load") /\ Load(Set(E.x), E.w)
TraceChange == IsEvent("chg") /\ Change(E) = Set(E.r) /\ Put(Set(E.r))
TraceAsk    == IsEvent("ask") /\ Answer(E) = E.r /\ Ask
TraceVec    == IsEvent("tovec") /\ E.len = W /\ ToVec(reg, W) = Set(E.r) /\ Ask
\* every 16-bit value at once
Bits16(n)   == {p \in 0..15 : (n \div 2^p) % 2 = 1}
TraceAll16  == IsEvent("all16") /\ Len(E.r) = 65536
               /\ (\A n \in 0..65535 : E.r[n + 1] = (IF E.op = "count" THEN BitCount(Bits16(n)) ELSE OnePos(Bits16(n), 16)))
               /\ Ask
\* a lookup table: entry i is the sum of the source entries named by the bits of i
TraceTable  == IsEvent("fill")
               /\ (\A i \in 0..(Len(E.r) - 1) :
                     Set(E.r[i + 1]) = XorSeq([k \in 1..Len(E.src) |-> IF (i \div 2^(k - 1)) % 2 = 1 THEN Set(E.src[k]) ELSE {}]))
               /\ Ask
TraceLcm    == IsEvent("lcm") /\ Set(E.r) = LCMP(Set(E.x), Set(E.y)) /\ Ask
\* printed polynomial, as character codes
PolyText(p, brk) ==
    IF p = {} THEN << 48, 100, 101, 103, 61, 45, 49, 10 >>        \* "0deg=-1\n"
    ELSE LET RECURSIVE dec(_)
             dec(n) == IF n < 10 THEN << 48 + n >> ELSE Append(dec(n \div 10), 48 + (n % 10))
         IN FoldLeft(LAMBDA s, i : s \o << IF i \in p THEN 49 ELSE 48 >> \o (IF brk /\ i % 32 = 31 THEN << 10 >> ELSE << >>),
                     << >>, Iota(0, Deg(p)))
            \o << 100, 101, 103, 61 >> \o dec(Deg(p)) \o << 10 >>
TracePrint  == IsEvent("print") /\ E.r = PolyText(Set(E.x), E.brk) /\ Ask
TraceNext == TraceLoad \/ TraceChange \/ TraceAsk \/ TraceVec \/ TraceAll16 \/ TraceTable \/ TraceLcm \/ TracePrint
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
