CONSTANT Depth = 14
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
