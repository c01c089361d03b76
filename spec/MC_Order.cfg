CONSTANTS
  Parts = {"M", "N"}
  Shapes = {"alias", "of", "seq", "first", "last"}
INIT Init
NEXT Next
INVARIANT Lives
CHECK_DEADLOCK FALSE
