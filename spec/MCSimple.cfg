INIT Init
NEXT Next
INVARIANTS OnlyFour Emit
CHECK_DEADLOCK FALSE
