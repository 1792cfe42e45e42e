SPECIFICATION Spec
CONSTANTS NV = 4 MaxTok = 3 MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
