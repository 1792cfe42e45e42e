INIT Init
NEXT Never
CONSTANTS N = 3
Period = 1
K = 1
INVARIANTS Sound Exact
CHECK_DEADLOCK FALSE
