SPECIFICATION Spec
CONSTANTS
  NN = 3
  MaxLen = 3
  MaxTok = 5
  Wts = {1}
INVARIANTS Counters Sufficient
CHECK_DEADLOCK FALSE
