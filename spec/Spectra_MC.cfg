SPECIFICATION Spec
CONSTANTS N = 7
Period = 3
K = 0
INVARIANTS BlockRight Finished3
PROPERTY Terminates
CHECK_DEADLOCK FALSE
