CONSTANT MaxDeg = 6
SPECIFICATION Spec
INVARIANTS IrredOK PrimOK MersenneOK LargeOK
