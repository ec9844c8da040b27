CONSTANTS Size = 3
 WW = 2
 Dead = 1
 Ops = 3
SPECIFICATION Spec
INVARIANTS VectorOK ZeroTestOK
CHECK_DEADLOCK FALSE
