SPECIFICATION Spec
CONSTANTS N = 2 K = 3 P100 = 30
INVARIANTS SameLattice Prefix Decreases Finally Short
PROPERTY Terminates
CHECK_DEADLOCK FALSE
