CONSTANT Reg = {"a", "b", "c"}
CONSTANT SReg = {"s", "t", "u", "v"}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
