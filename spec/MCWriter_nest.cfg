CONSTANTS
  Leaves <- OneLeaf
  MaxTokens = 7
  MaxItems = 2
  Tags <- TagsSmall
  Limits <- LNest
  MaxWrites = 1
  Bases <- Empty
INIT Init
NEXT Next
INVARIANTS Refines RoundTrip OrderFree Injective Appends Emit
CHECK_DEADLOCK FALSE
