SPECIFICATION TraceSpec
CONSTANTS
  Reg = {"a", "b", "c"}
  MaxLen = 100000
INVARIANTS InclusionExclusion
PROPERTIES RefusalIsSilent
CHECK_DEADLOCK FALSE
