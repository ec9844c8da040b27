SPECIFICATION Spec
CONSTANTS N = 3 W = 4 Sh1 = 1 Sh2 = 2 Step = 2 Vary = 2
INVARIANTS SurvivorsBest LevelBitsExact
PROPERTIES GreedyImproves LevelsGrow
