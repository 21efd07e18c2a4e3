SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxInit = 3 MaxTrees = 6 Emit = TRUE
VIEW View
INVARIANT Inv EmitInv
PROPERTY StepOK
CHECK_DEADLOCK FALSE
