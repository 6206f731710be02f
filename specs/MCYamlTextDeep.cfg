SPECIFICATION Spec
CONSTANTS
  Alphabet <- Troublesome
  MaxLen = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
