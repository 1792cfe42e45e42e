SPECIFICATION Spec
CONSTANTS MaxFs = 3
INVARIANTS Rules Pythagoras Inverse Decided
CHECK_DEADLOCK FALSE
