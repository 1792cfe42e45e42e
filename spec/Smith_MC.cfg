CONSTANT Reg = {1}
CONSTANT Sizes <- MCSizes
CONSTANT Lim = 2
SPECIFICATION SSpec
INVARIANT Recorded
INVARIANT Kept
INVARIANT Result
INVARIANT Live
PROPERTY Ends
CHECK_DEADLOCK FALSE
