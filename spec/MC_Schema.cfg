CONSTANTS
  Kind = "seq"
  MaxComp = 2
  MaxWord = 2
  Ext = FALSE
INIT Init
NEXT Next
INVARIANTS Decoding Encoding
CHECK_DEADLOCK FALSE
