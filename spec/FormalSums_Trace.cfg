CONSTANT Reg = {"a", "b", "c", "d", "e", "f"}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
