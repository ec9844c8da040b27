CONSTANT MaxDeg = 8
SPECIFICATION Spec
INVARIANTS IrredOK PrimOK MersenneOK LargeOK
