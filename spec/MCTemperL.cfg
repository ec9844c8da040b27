SPECIFICATION Spec
CONSTANTS N = 4 W = 5 Sh1 = 2 Sh2 = 1 Step = 2 Vary = 2
INVARIANTS SurvivorsBest LevelBitsExact
PROPERTIES GreedyImproves LevelsGrow
