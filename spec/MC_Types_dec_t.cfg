CONSTANTS
  Kind = "dec"
  Heads = {0, 1, 2, 3, 4}
  Alphabet = {48, 49, 57, 46, 44, 45, 69, 32}
  MaxLen = 6
  Years = {0}
INIT Init
NEXT Next
INVARIANTS IntLaw OidLaw RealLaw DecLaw TimeLaw
CHECK_DEADLOCK FALSE
