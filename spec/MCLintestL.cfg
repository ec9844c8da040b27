SPECIFICATION Spec
CONSTANTS N = 2 W = 2 Window = 3
INVARIANTS LinearOK OutsideOK ConstOK OrderOK
CHECK_DEADLOCK FALSE
