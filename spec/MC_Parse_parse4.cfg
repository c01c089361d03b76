CONSTANTS
  Alphabet = {0, 1, 2, 31, 48, 127, 128, 129, 136, 191, 255}
  MaxLen = 4
INIT Init
NEXT Next
INVARIANTS TypeOK Confined Independent PrefixFree Minimal Inverse IdentifierLaw LengthLaw Tiling
CHECK_DEADLOCK FALSE
