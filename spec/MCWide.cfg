CONSTANT Narrow = 26
CONSTANT Wide = {254, 255, 256, 257, 300, 4095, 4096, 4097, 65534, 65535, 65536, 65537}
INIT Init
NEXT Next
INVARIANTS ClosedForm Emit
CHECK_DEADLOCK FALSE
