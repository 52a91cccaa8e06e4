CONSTANTS
  Leaves <- FewLeaves
  Combs <- AllCombs
  MaxProg = 4
  MaxStack = 4
INIT Init
NEXT Next
INVARIANTS RunIsSteps NothingLost Signs Labels Emit
CHECK_DEADLOCK FALSE
