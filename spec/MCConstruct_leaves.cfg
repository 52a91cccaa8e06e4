CONSTANTS
  Leaves <- AllLeaves
  Combs <- AllCombs
  MaxProg = 2
  MaxStack = 1
INIT Init
NEXT Next
INVARIANTS RunIsSteps NothingLost Signs Labels Emit
CHECK_DEADLOCK FALSE
