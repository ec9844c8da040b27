SPECIFICATION Spec
CONSTANTS N = 4 L = 3 S = 1
INVARIANTS BlocksOK BoundOK ModesOK
CHECK_DEADLOCK FALSE
