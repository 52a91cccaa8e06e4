CONSTANTS
  Leaves <- FewLeaves
  Combs <- AllCombs
  MaxProg = 5
  MaxStack = 4
INIT Init
NEXT Next
INVARIANTS RunIsSteps NothingLost Signs Labels Emit
CHECK_DEADLOCK FALSE
