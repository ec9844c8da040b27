SPECIFICATION Spec
CONSTANTS N = 2 W = 3
INVARIANTS PackedOK CountOK SubspaceOK BlackBoxOK PartOK
