SPECIFICATION Spec
CONSTANTS N = 2 K = 5 P100 = 99
INVARIANTS SameLattice Prefix Decreases Finally Short
PROPERTY Terminates
CHECK_DEADLOCK FALSE
