CONSTANT NKeys = 8
CONSTANT MaxCalls = 4
CONSTANT Modes = {"lenient", "strict"}
INIT Init
NEXT Next
INVARIANTS Finds StrictSeesAll LeavesRest Refines Emit
CHECK_DEADLOCK FALSE
