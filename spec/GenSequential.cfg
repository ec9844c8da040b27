CONSTANT Depth = 45
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
