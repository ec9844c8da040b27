CONSTANT N = 2
SPECIFICATION Spec
INVARIANTS MinimalOK DividesOK
