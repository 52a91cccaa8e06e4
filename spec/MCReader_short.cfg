CONSTANTS
  Heads <- AllBytes
  Args <- AllBytes
  Conts <- AllBytes
  Extras <- ExtrasSmall
  MaxLen = 2
  Limits <- Lim127
  Modes <- Both
INIT Init
NEXT Next
INVARIANTS Refines AcceptsCanonical LenientMeaning FailsForGood Bounded StackBounded Emit
CHECK_DEADLOCK FALSE
