CONSTANTS
  Heads <- TextHeads
  Args <- TextArgs
  Conts <- TextConts
  Extras <- ExtrasSmall
  MaxLen = 4
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood Bounded StackBounded EmitFfi
CHECK_DEADLOCK FALSE
