INIT Init
NEXT Next
INVARIANT Counted
INVARIANT AnyOrder
CHECK_DEADLOCK FALSE
