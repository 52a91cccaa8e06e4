CONSTANTS
  Heads <- AllBytes
  Args <- Args3
  Conts <- Conts3
  Extras <- ExtrasSmall
  MaxLen = 3
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood Bounded StackBounded EmitFfi
CHECK_DEADLOCK FALSE
