CONSTANT Depth = 22
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
