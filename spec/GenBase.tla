------------------------------- MODULE GenBase -------------------------------
(* Emission of generated behaviours: sequences of operations                 *)
(* <<code, object, a, b>>; run with TLC's simulator.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE hist
GenInit == hist = << >>
Log(o) == hist' = Append(hist, o)
Going == Len(hist) < Depth
Emit == Len(hist) = Depth /\ PrintT("BEH:" \o ToJson(hist)) /\ hist' = Append(hist, << 0, 0, 0, 0 >>)
=============================================================================
