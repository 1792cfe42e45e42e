SPECIFICATION TraceSpec
CONSTANTS
  Reg = {"a", "b", "c"}
  NV = 1
CHECK_DEADLOCK FALSE
