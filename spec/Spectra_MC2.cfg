INIT Init
NEXT Never
CONSTANTS N = 2
Period = 1
K = 1
INVARIANTS Sound Exact
CHECK_DEADLOCK FALSE
