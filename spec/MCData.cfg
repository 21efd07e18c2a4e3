SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxOut = 4
  MaxW = 2
  Emit = TRUE
VIEW View
CONSTRAINT SmallEnough
INVARIANT Inv EmitInv
PROPERTY StepOK
CHECK_DEADLOCK FALSE
