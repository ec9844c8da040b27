CONSTANT Width = 6
SPECIFICATION Spec
INVARIANTS TypeOK Identities
