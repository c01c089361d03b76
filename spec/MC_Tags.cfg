CONSTANTS
  MaxTags = 2
  Classes = {1, 2}
  Numbers = {3, 200}
INIT Init
NEXT Next
INVARIANT Tagging
CHECK_DEADLOCK FALSE
