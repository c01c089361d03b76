INIT Init
NEXT Next
INVARIANTS Sound Emit
PROPERTIES Elided Frame
CHECK_DEADLOCK FALSE
