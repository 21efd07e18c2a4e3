SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxTotal = 4
  MaxDepth = 2
  Emit = TRUE
VIEW View
INVARIANT Inv EmitInv
PROPERTY StepOK
CHECK_DEADLOCK FALSE
