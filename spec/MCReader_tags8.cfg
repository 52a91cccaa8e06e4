CONSTANTS
  Heads <- Tag8Heads
  Args <- WideArgs8
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 10
  Limits <- Lim127
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
