CONSTANTS
  Heads <- WideHeads
  Args <- WideArgs
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 5
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood Bounded StackBounded EmitFfi
CHECK_DEADLOCK FALSE
