SPECIFICATION Spec
CONSTANTS N = 3 K = 1 P100 = 75
INVARIANTS SameLattice Prefix Decreases Finally Short
PROPERTY Terminates
CHECK_DEADLOCK FALSE
