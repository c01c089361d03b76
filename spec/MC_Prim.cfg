INIT Init
NEXT Next
INVARIANT Sound
PROPERTY Refusal
CHECK_DEADLOCK FALSE
