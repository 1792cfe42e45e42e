CONSTANT Reg = {"a", "b", "c", "d", "u", "v", "w", "x"}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
