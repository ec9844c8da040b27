CONSTANTS MaxLen = 3
 MaxBudget = 3
SPECIFICATION Spec
INVARIANTS CountOK BudgetOK ResultOK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
