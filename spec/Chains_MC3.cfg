CONSTANT Reg = {1}
CONSTANT Sizes <- MCSizes3
CONSTANT Lim = 2
SPECIFICATION CSpec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
