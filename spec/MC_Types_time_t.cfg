CONSTANTS
  Kind = "time"
  Heads = {}
  Alphabet = {}
  MaxLen = 0
  Years = {0, 1, 2, 3, 4, 5, 96, 99, 100, 101, 199, 200, 299, 300, 396, 399, 400, 401, 1582, 1599, 1600, 1699, 1700, 1799, 1800, 1899, 1900, 1901, 1967, 1968, 1969, 1970, 1971, 1972, 1996, 1999, 2000, 2001, 2020, 2023, 2024, 2025, 2037, 2038, 2096, 2099, 2100, 2104, 2399, 2400, 4000, 9600, 9996, 9998}
INIT Init
NEXT Next
INVARIANTS IntLaw OidLaw RealLaw DecLaw TimeLaw
CHECK_DEADLOCK FALSE
