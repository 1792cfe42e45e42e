CONSTANT NV = 6
CONSTANT MaxTok = 4
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
