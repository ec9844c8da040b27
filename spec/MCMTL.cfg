CONSTANT MaxReads = 14
SPECIFICATION Spec
INVARIANTS RecurrenceOK RingOK NonZero ArithOK
