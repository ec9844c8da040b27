------------------------------- MODULE MCWords -------------------------------
(* Identities of the register machine, over every register value.            *)
EXTENDS Words
CONSTANT Width
Init == reg \in SUBSET Pos(Width) /\ W = Width
Next == \/ \E s \in Pos(Width) : Put(ShlW(reg, s, W)) \/ Put(ShrW(reg, s)) \/ Put(Xor(reg, {s}))
        \/ Put(NotW(reg, W)) \/ Put(RevW(reg, W))
Spec == Init /\ [][Next]_wvars
TypeOK == reg \subseteq Pos(W)
Nat2Set(n) == {p \in Pos(W) : (n \div 2^p) % 2 = 1}
ValueOf(x) == FoldLeft(LAMBDA r, p : 2 * r + (IF p \in x THEN 1 ELSE 0), 0, Down(W - 1, 0))
Identities ==
    /\ RevW(RevW(reg, W), W) = reg
    /\ FromVec(ToVec(reg, W), W) = reg
    /\ NotW(NotW(reg, W), W) = reg
    /\ \A p \in Pos(W), b \in {0, 1} : (p \in WithBit(reg, p, b)) <=> b = 1
    /\ \A s \in Pos(W) : ShrW(ShlW(reg, s, W), s) = reg \cap Pos(W - s)
    /\ ValueOf(ShrW(reg, 1)) = ValueOf(reg) \div 2
    /\ ValueOf(ShlW(reg, 1, W)) = (2 * ValueOf(reg)) % 2^W
    /\ BitCount(reg) + BitCount(NotW(reg, W)) = W
    /\ OnePos(reg, W) = -1 <=> reg = {}
    /\ reg # {} => /\ ValueOf(FloorPow2(reg)) <= ValueOf(reg)
                   /\ 2 * ValueOf(FloorPow2(reg)) > ValueOf(reg)
                   /\ OnePos(reg, W) = W - 1 - Min(reg)
    /\ \A m \in 1..9 : ModInt(reg, m) = ValueOf(reg) % m
    /\ \A n \in 0..W : ValueOf(MsbMask(n, W)) = 2^W - 2^(W - n)
=============================================================================
