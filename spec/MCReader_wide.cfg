CONSTANTS
  Heads <- WideHeads
  Args <- WideArgs
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 5
  Limits <- Lim127
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
