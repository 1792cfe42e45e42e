SPECIFICATION Spec
CONSTANTS NV = 6 MaxTok = 4
INVARIANT Inv
INVARIANT InvEnum
CHECK_DEADLOCK FALSE
