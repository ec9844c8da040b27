SPECIFICATION Spec
CONSTANTS N = 3 W = 1 Depth = 1
INVARIANTS ComposeOK CharOK CofactorOK AnnihilatedOK
