CONSTANTS
  Heads <- MapHeadsKeys
  Args <- MapArgs
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 7
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood Bounded StackBounded EmitFfi
CHECK_DEADLOCK FALSE
