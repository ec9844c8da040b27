CONSTANT Depth = 18
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
