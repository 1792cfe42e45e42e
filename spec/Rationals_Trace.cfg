SPECIFICATION TraceSpec
CONSTANTS
  Reg = {"a", "b", "c", "q", "m"}
  Nums = {}
  Dens = {}
  Bound = 0
INVARIANT Canonical
CHECK_DEADLOCK FALSE
