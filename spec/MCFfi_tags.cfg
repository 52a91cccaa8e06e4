CONSTANTS
  Heads <- TagHeads
  Args <- MapArgs
  Conts <- MapConts
  Extras <- ExtrasSmall
  MaxLen = 68
  Limits <- TypedLimit
  Modes <- LenientOnly
INIT Init
NEXT Next
INVARIANTS Refines VerdictIsDecode FailsForGood StackBounded EmitFfi
CHECK_DEADLOCK FALSE
