CONSTANTS
  Heads <- TextHeads
  Args <- TextArgs
  Conts <- TextConts
  Extras <- ExtrasSmall
  MaxLen = 4
  Limits <- Lim127
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
