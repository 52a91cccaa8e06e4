CONSTANTS
  Leaves <- PairLeaves
  Combs <- MapCombs
  MaxProg = 7
  MaxStack = 6
INIT Init
NEXT Next
INVARIANTS RunIsSteps NothingLost Signs Labels Emit
CHECK_DEADLOCK FALSE
