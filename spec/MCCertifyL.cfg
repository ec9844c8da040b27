SPECIFICATION Spec
CONSTANTS N = 4 W = 1
INVARIANTS FixOK SoundOK PeriodOK SmallOK AfterOK SecondOK
CHECK_DEADLOCK FALSE
