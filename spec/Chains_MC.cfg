CONSTANT Reg = {1}
CONSTANT Sizes <- MCSizes
CONSTANT Lim = 4
SPECIFICATION CSpec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
