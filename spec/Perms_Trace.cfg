SPECIFICATION TraceSpec
CONSTANTS
  Reg = {"a", "b", "c"}
  MaxM = 0
CHECK_DEADLOCK FALSE
