CONSTANTS
  Heads <- AllBytes
  Args <- AllBytes
  Conts <- AllBytes
  Extras <- ExtrasSmall
  MaxLen = 2
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood Bounded StackBounded EmitFfi
CHECK_DEADLOCK FALSE
