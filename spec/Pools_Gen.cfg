SPECIFICATION GSpec
CONSTANTS
  Reg = {"a", "b", "c"}
  MaxLen = 130
  Sizes = {0, 1, 5, 63, 64, 65, 127, 128, 129, 130}
  Indices = {0, 1, 4, 5, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129}
  Depth = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE
