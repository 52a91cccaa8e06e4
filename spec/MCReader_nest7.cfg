CONSTANTS
  Heads <- NestHeadsDeep
  Args <- MapArgs
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 7
  Limits <- NestLimitsAll
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
