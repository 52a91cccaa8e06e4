CONSTANTS
  Leaves <- Keys
  MaxTokens = 5
  MaxItems = 2
  Tags <- NoTags
  Limits <- L127
  MaxWrites = 1
  Bases <- Empty
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip OrderFree Injective Appends Emit
CHECK_DEADLOCK FALSE
