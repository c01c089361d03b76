INIT Init
NEXT Next
INVARIANTS Sound Emit
PROPERTIES Frame Lengths
CHECK_DEADLOCK FALSE
