CONSTANTS
  MaxItems = 3
  Full = 2
  Numbers <- Around
  Forms = {"literal", "value", "chain"}
INIT Init
NEXT Next
INVARIANTS Numbered Denoted
CHECK_DEADLOCK FALSE
