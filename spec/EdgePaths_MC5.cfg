SPECIFICATION Spec
CONSTANTS NV = 5 MaxTok = 3 MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
