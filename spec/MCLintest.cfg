SPECIFICATION Spec
CONSTANTS N = 2 W = 1 Window = 3
INVARIANTS LinearOK OutsideOK ConstOK OrderOK
CHECK_DEADLOCK FALSE
