INIT Init
NEXT Next
INVARIANTS Sound LastSet Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
