SPECIFICATION Spec
CONSTANTS N = 3 W = 1
INVARIANTS SimpleOK ImageOK CertOK ImposOK NowOK RowsOK
CHECK_DEADLOCK FALSE
