SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxLen = 3
  MaxT = 5
  Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
