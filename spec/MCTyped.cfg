CONSTANT Groups = {"prim"}
CONSTANT MaxEdits = 1
CONSTANT EditFrom = 8
CONSTANT Emit = "all"
INIT Init
NEXT Next
INVARIANTS RoundTrip NullIsUndef MapsAreMaps OrderIrrelevant UnknownEntries SkippedHidden Stable Tests
CHECK_DEADLOCK FALSE
