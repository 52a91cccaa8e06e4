CONSTANT Groups = {"sprim"}
CONSTANT MaxEdits = 1
CONSTANT EditFrom = 8
CONSTANT Emit = "all"
INIT Init
NEXT Next
INVARIANTS AgreesWithNative RoundTrip Stable TagsRefused NumbersKept Blame Tests
CHECK_DEADLOCK FALSE
