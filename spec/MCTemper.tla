------------------------------ MODULE MCTemper ------------------------------
(***************************************************************************)
(* The two searches as transition systems on small machines: the greedy    *)
(* search never gets worse from block to block, and ends no worse than the *)
(* initial patterns; the level search's survivors are exactly the settings *)
(* of the bits met so far that are best at every level given the previous  *)
(* ones, and its level cost never decreases (later levels count more       *)
(* accuracies).                                                            *)
(***************************************************************************)
EXTENDS Temper
CONSTANTS N, W, Sh1, Sh2, Step, Vary
VARIABLES mode, at, cost, surv     \* mode "greedy"/"lsb"/"levels"; at: decisions made
allvars == << A, C, st, open, shifts, pats, rev, mode, at, cost, surv >>
Irr == {f \in SUBSET (0..N) : Deg(f) = N /\ IrreducibleDef(f)}
Tries == Blocks(W, Step)
Init == /\ A \in {Companion(f) : f \in Irr}
        /\ C \in {[b \in 1..W |-> IF b <= Vary THEN r[b] ELSE {(b - 1) % N}] : r \in [1..Vary -> SUBSET (0..(N - 1))]}
        /\ st = {0} /\ open = << >>
        /\ shifts = << Sh1, Sh2 >> /\ pats \in {<< {}, {} >>, << 0..(W - 1), {1} >>} /\ rev = FALSE
        /\ mode \in {"greedy", "lsb", "levels"} /\ at = 0
        /\ surv = {<< {}, {} >>}
        /\ cost = (IF mode = "levels" THEN 0 ELSE TotalDefect(A, C, shifts, pats, mode = "lsb", W))
Greedy == /\ mode # "levels" /\ at < 2 * Len(Tries) /\ at' = at + 1
          /\ LET b == Tries[(at \div 2) + 1]  i == (at % 2) + 1
                 blk == BlockBits(b[1], b[2], mode = "lsb", W)
             IN \E p \in SUBSET blk : Decide(i, blk, mode = "lsb", p)
          /\ cost' = TotalDefect(A, C, shifts, pats', mode = "lsb", W)
          /\ UNCHANGED << mode, surv >>
Level == /\ mode = "levels" /\ at < W /\ at' = at + 1
         /\ surv' = LevelSurvivors(A, C, surv, at, shifts)
         /\ pats' = CHOOSE ps \in surv' : TRUE
         /\ cost' = TotalDefect(A, C, shifts, pats', FALSE, at + 1)
         /\ UNCHANGED << A, C, st, open, shifts, rev, mode >>
Done == at = (IF mode = "levels" THEN W ELSE 2 * Len(Tries)) /\ UNCHANGED allvars
Next == Greedy \/ Level \/ Done
Spec == Init /\ [][Next]_allvars
GreedyImproves == [][mode # "levels" => cost' <= cost]_allvars
LevelsGrow == [][mode = "levels" => cost' >= cost]_allvars
\* changing any bit met so far of a survivor in the last level only never helps
SurvivorsBest == (mode = "levels" /\ at > 0) =>
    \A ps \in surv : \A T \in SUBSET LevelBits(at - 1, shifts, W) :
        TotalDefect(A, C, shifts, Setting(ps, LevelBits(at - 1, shifts, W), T), FALSE, at) >= cost
\* the bits of a level are exactly those whose change can alter that output bit, given any patterns met
LevelBitsExact == (mode = "levels" /\ at < W) =>
    \A i \in 1..2, b \in 0..(W - 1) :
        LET generic == [c \in 1..W |-> {c - 1}]
            row(ps) == TemperRows(generic, shifts, ps)[W - at]
            all == [1..2 -> {{}, 0..(W - 1)}]
        IN (<< i, b >> \in LevelBits(at, shifts, W)) <=>
           \E ps \in all : row(ps) # row([ps EXCEPT ![i] = Xor(ps[i], {b})])
=============================================================================
