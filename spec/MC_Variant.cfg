INIT Init
NEXT Next
INVARIANTS TypeOK Order Emit
PROPERTIES Frame NoneOnlyByThrow
CHECK_DEADLOCK FALSE
