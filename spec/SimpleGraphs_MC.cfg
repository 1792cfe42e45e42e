SPECIFICATION Spec
CONSTANTS
  Reg = {"a"}
  NV = 5
INVARIANTS Refines Triangular Iterates Searches Handshake
CHECK_DEADLOCK FALSE
