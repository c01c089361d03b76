CONSTANTS
  Kind = "int"
  Heads = {0, 1, 127, 128, 255}
  Alphabet = {0, 1, 127, 128, 255}
  MaxLen = 7
  Years = {0}
INIT Init
NEXT Next
INVARIANTS IntLaw OidLaw RealLaw DecLaw TimeLaw
CHECK_DEADLOCK FALSE
