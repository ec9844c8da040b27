SPECIFICATION Spec
CONSTANTS N = 3 W = 2
INVARIANTS PackedOK CountOK SubspaceOK BlackBoxOK PartOK
