SPECIFICATION Spec
CONSTANTS
  NV = 5
INVARIANTS Same Partial Tree BasePoint Leaf
CHECK_DEADLOCK FALSE
