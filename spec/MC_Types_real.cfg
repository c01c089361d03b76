CONSTANTS
  Kind = "real"
  Heads = {128, 129, 130, 131, 132, 140, 144, 160, 176, 192, 64, 65, 66, 67, 68}
  Alphabet = {0, 1, 2, 3, 52, 127, 128, 200, 255}
  MaxLen = 4
  Years = {0}
INIT Init
NEXT Next
INVARIANTS IntLaw OidLaw RealLaw DecLaw TimeLaw
CHECK_DEADLOCK FALSE
