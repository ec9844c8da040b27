CONSTANTS KeyLen = 2
 Steps = 2
 Keys = {0,1,2,3,127,128,254,255}
SPECIFICATION Spec
INVARIANT NonZero
CHECK_DEADLOCK FALSE
