CONSTANTS N = 2
 Runs = 2
 MaxCount = 2
 Seeds = {1, 2}
 WellFormed <- SmallWF
 From <- SmallFrom
 Count <- SmallCount
 Endless <- SmallEndless
 KeyOf <- SmallKey
 Low32 <- SmallLow
SPECIFICATION Spec
INVARIANTS RunOK Going Noticed
CHECK_DEADLOCK FALSE
