CONSTANT Reg = {1}
CONSTANT NV = 5
SPECIFICATION Spec
INVARIANT Refines
INVARIANT Counts
INVARIANT Joins
INVARIANT Complex
INVARIANT Cone
INVARIANT OrderFree
CHECK_DEADLOCK FALSE
