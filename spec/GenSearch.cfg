CONSTANT Depth = 30
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
