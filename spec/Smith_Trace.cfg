CONSTANT Reg = {1}
CONSTANT Sizes = {}
CONSTANT Lim = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
