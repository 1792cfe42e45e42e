SPECIFICATION Spec
CONSTANTS
  NN = 3
  MaxLen = 3
  MaxTok = 2
  Wts = {0, 1, 3}
INVARIANTS Counters Weighted
CHECK_DEADLOCK FALSE
