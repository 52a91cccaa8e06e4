CONSTANT MaxAnn = 1
CONSTANT Bases = {}
CONSTANT Misuse = {"Two", "MapUnit", "New", "Maps"}
CONSTANT Der = {"enc", "dec"}
INIT Init
NEXT Next
INVARIANTS NeverForgiven Plain Emit
CHECK_DEADLOCK FALSE
