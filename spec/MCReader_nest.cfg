CONSTANTS
  Heads <- NestHeads
  Args <- MapArgs
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 6
  Limits <- NestLimits
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
