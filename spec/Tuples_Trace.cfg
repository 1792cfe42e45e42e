SPECIFICATION TraceSpec
CONSTANTS MaxN = 0
CHECK_DEADLOCK FALSE
