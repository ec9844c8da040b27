CONSTANTS WW = 2
 Steps = 3
 As = {{}, {0}, {1}, {0, 1}}
 Bs = {{}, {0}, {1}, {0, 1}}
 Qs = {1, 2}
 Ks = {{0, 2}, {1}, {0, 1, 2, 3}}
SPECIFICATION Spec
INVARIANTS LinearOK DeadOK DimOK
CHECK_DEADLOCK FALSE
