SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS ResultOK FirstOK EqualOK
CHECK_DEADLOCK FALSE
