SPECIFICATION Spec
CONSTANTS W = 3 H = 3 MaxN = 4
INVARIANT Correct
INVARIANT IsTiling Counted
INVARIANT Interior
CHECK_DEADLOCK FALSE
