SPECIFICATION Spec
CONSTANT MaxLen = 1
INVARIANTS ResultOK FirstOK EqualOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
