CONSTANT Reg = {"a", "b", "c"}
CONSTANT NV = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
