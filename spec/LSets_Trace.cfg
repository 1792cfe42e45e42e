SPECIFICATION TraceSpec
CONSTANTS
  Reg = {"a", "b"}
  Labels = {}
INVARIANTS OnlyRegistered OrderListsMembers
CHECK_DEADLOCK FALSE
