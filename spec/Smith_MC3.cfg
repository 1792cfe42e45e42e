CONSTANT Reg = {1}
CONSTANT Sizes <- MCSizes3
CONSTANT Lim = 1
SPECIFICATION SSpec
INVARIANT Recorded
INVARIANT Kept
INVARIANT Result
INVARIANT Live
PROPERTY Ends
CHECK_DEADLOCK FALSE
