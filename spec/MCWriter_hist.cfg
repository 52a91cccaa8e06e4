CONSTANTS
  Leaves <- Tiny
  MaxTokens = 4
  MaxItems = 2
  Tags <- NoTags
  Limits <- LTwo
  MaxWrites = 2
  Bases <- Prefix
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip OrderFree Injective Appends Emit
CHECK_DEADLOCK FALSE
