CONSTANTS
  Heads <- TextHeads4
  Args <- TextArgs
  Conts <- TextConts4
  Extras <- ExtrasSmall
  MaxLen = 5
  Limits <- Lim127
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
