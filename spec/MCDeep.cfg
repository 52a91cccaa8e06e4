CONSTANT Small = 140
CONSTANT Doublings = 13
INIT Init
NEXT Next
INVARIANTS ClosedForm Emit
CHECK_DEADLOCK FALSE
