CONSTANTS
  Alphabet = {0, 1, 2, 48, 31, 129}
  MaxLen = 7
INIT Init
NEXT Next
INVARIANTS TypeOK Confined Independent PrefixFree Minimal Inverse IdentifierLaw LengthLaw Tiling
CHECK_DEADLOCK FALSE
