SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxZ = 2
  MaxT = 4
  Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
