CONSTANT NV = 5
CONSTANT MaxTok = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
