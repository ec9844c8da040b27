SPECIFICATION Spec
CONSTANTS N = 3 L = 2 S = 2
INVARIANTS BlocksOK BoundOK ModesOK
CHECK_DEADLOCK FALSE
