SPECIFICATION Spec
CONSTANTS N = 3 W = 2
INVARIANTS FixOK SoundOK PeriodOK SmallOK AfterOK SecondOK
CHECK_DEADLOCK FALSE
