SPECIFICATION Spec
CONSTANTS NV = 5 MaxTok = 3
INVARIANT Inv
INVARIANT InvEnum
CHECK_DEADLOCK FALSE
