SPECIFICATION Spec
CONSTANTS W = 3 H = 2 MaxN = 5
INVARIANT Correct
INVARIANT IsTiling Counted
INVARIANT Interior
CHECK_DEADLOCK FALSE
