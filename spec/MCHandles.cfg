SPECIFICATION Spec
CONSTANTS MaxN = 2
          MaxOut = 2
          MaxP = 1
          MaxH = 2
          MaxF = 2
          MaxTh = 1
          MaxTok = 1
          MaxDead = 1
          MaxHol = 1
          MaxTotal = 9
          Emit = TRUE
CONSTRAINT SmallEnough
INVARIANT Inv EmitInv
CHECK_DEADLOCK FALSE
