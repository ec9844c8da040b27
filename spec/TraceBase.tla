----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace (one JSON object per line) and accepting it.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* every line consumed: one state per line plus the initial state
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
