SPECIFICATION Spec
CONSTANTS MaxFs = 2
INVARIANTS Rules Pythagoras Inverse Decided
CHECK_DEADLOCK FALSE
