CONSTANT Depth = 16
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
