CONSTANT Width = 10
SPECIFICATION Spec
INVARIANTS TypeOK Identities
