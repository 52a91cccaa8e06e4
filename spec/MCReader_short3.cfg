CONSTANTS
  Heads <- AllBytes
  Args <- Args3
  Conts <- Conts3
  Extras <- ExtrasSmall
  MaxLen = 3
  Limits <- Lim127
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
