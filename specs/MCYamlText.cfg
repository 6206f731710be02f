SPECIFICATION Spec
CONSTANTS
  Alphabet <- Troublesome
  MaxLen = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
