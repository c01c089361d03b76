CONSTANTS
  Kind = "time"
  Heads = {}
  Alphabet = {}
  MaxLen = 0
  Years = {0, 3, 4, 99, 100, 399, 400, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2037, 2038, 2099, 2100, 9998}
INIT Init
NEXT Next
INVARIANTS IntLaw OidLaw RealLaw DecLaw TimeLaw
CHECK_DEADLOCK FALSE
