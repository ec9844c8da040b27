CONSTANTS Size = 3
 WW = 2
 Dead = 1
 Ops = 5
SPECIFICATION Spec
INVARIANTS VectorOK ZeroTestOK
CHECK_DEADLOCK FALSE
