CONSTANTS
  Defaults = {"EXPLICIT", "IMPLICIT", "AUTOMATIC"}
INIT Init
NEXT Next
INVARIANT Resolves
CHECK_DEADLOCK FALSE
