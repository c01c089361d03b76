CONSTANTS
  Bodies = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Actuals = {1, 2, 3, 4, 5, 6, 7, 8}
  Defaults = {"EXPLICIT", "IMPLICIT", "AUTOMATIC"}
  Places = {"M", "N"}
INIT Init
NEXT Next
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
