CONSTANTS MaxSteps = 4
INIT Init
NEXT Next
INVARIANTS Prefix All Itself
CHECK_DEADLOCK FALSE
