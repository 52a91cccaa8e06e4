CONSTANTS
  Heads <- Wide8Heads
  Args <- WideArgs8
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 9
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood Bounded StackBounded EmitFfi
CHECK_DEADLOCK FALSE
