------------------------------- MODULE Packed -------------------------------
(***************************************************************************)
(* Vectors over GF(2) as sequences of integers of 30 bits each: the same   *)
(* elimination as GF2!Insert, faster to evaluate.  MCEqui checks that      *)
(* both give the same ranks.                                               *)
(***************************************************************************)
EXTENDS GF2, Bits31

Chunks(d) == (d \div 30) + 1                     \* for positions 0..d
PowP2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288,
            1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912 >>
PackChunk(v, c) == FoldLeft(LAMBDA a, b : IF (30 * c + b - 1) \in v THEN a + PowP2[b] ELSE a, 0, Iota(1, 30))
Pack(v, n) == TLCEval([c \in 1..n |-> PackChunk(v, c - 1)])
PXor(a, b) == TLCEval([c \in DOMAIN a |-> XorI(a[c], b[c])])
\* elements << chunk, weight of a bit of the element in it, element >>
PReduce(basis, w) == FoldLeft(LAMBDA u, e : IF AndI(u[e[1]], e[2]) # 0 THEN PXor(u, e[3]) ELSE u, w, basis)
PElement(w, c) == TLCEval(<< c, PowP2[CHOOSE b \in 1..30 : AndI(w[c], PowP2[b]) # 0], w >>)
PWith(basis, w) == IF \A c \in DOMAIN w : w[c] = 0 THEN basis
                   ELSE Append(basis, PElement(w, CHOOSE c \in DOMAIN w : w[c] # 0))
PInsert(basis, w) == PWith(basis, TLCEval(PReduce(basis, w)))
\* vectors of positions 0..d: packed when that pays
PackFrom == 400
Vec(v, d) == IF d >= PackFrom THEN Pack(v, Chunks(d)) ELSE v
VInsert(basis, w, d) == IF d >= PackFrom THEN PInsert(basis, w) ELSE Insert(basis, w)
VecAll(vs, d) == IF d >= PackFrom THEN TLCEval([j \in 1..Len(vs) |-> Vec(vs[j], d)]) ELSE vs
=============================================================================
