CONSTANTS WW = 2
 Steps = 2
 As = {{1}}
 Bs = {{0}}
 Qs = {1}
 Ks = {{0, 1}}
SPECIFICATION Spec
INVARIANTS LinearOK DeadOK DimOK
CHECK_DEADLOCK FALSE
