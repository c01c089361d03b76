CONSTANTS
  Kind = "oid"
  Heads = {0, 1, 39, 40, 79, 80, 119, 127, 128, 129, 255}
  Alphabet = {0, 1, 39, 40, 79, 80, 119, 127, 128, 129, 255}
  MaxLen = 5
  Years = {0}
INIT Init
NEXT Next
INVARIANTS IntLaw OidLaw RealLaw DecLaw TimeLaw
CHECK_DEADLOCK FALSE
