CONSTANTS
  Leaves <- Perm
  MaxTokens = 7
  MaxItems = 3
  Tags <- NoTags
  Limits <- L127
  MaxWrites = 1
  Bases <- Empty
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip OrderFree Injective Appends Emit
CHECK_DEADLOCK FALSE
