SPECIFICATION Spec
CONSTANTS
  Reg = {"a", "b"}
  Labels = {"x", "y", "z"}
INVARIANTS OnlyRegistered OrderListsMembers
VIEW View
