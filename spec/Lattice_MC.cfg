SPECIFICATION Spec
CONSTANTS N = 2 K = 4 P100 = 75
INVARIANTS SameLattice Prefix Decreases Finally Short
PROPERTY Terminates
CHECK_DEADLOCK FALSE
