CONSTANTS
  Leaves <- Bounds
  MaxTokens = 3
  MaxItems = 2
  Tags <- TagsBounds
  Limits <- L127
  MaxWrites = 1
  Bases <- Prefix
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip OrderFree Injective Appends Emit
CHECK_DEADLOCK FALSE
