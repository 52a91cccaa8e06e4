CONSTANTS
  Leaves <- KeysWithMaps
  MaxTokens = 5
  MaxItems = 2
  Tags <- NoTags
  Limits <- L127
  MaxWrites = 1
  Bases <- Empty
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip OrderFree Injective Appends Emit
CONSTRAINT TwoEntries
CHECK_DEADLOCK FALSE
