CONSTANT MaxReads = 5
SPECIFICATION Spec
INVARIANTS RecurrenceOK RingOK NonZero ArithOK
