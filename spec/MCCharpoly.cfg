SPECIFICATION Spec
CONSTANTS N = 2 W = 2 Depth = 2
INVARIANTS ComposeOK CharOK CofactorOK AnnihilatedOK
