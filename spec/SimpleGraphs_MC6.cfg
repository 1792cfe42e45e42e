SPECIFICATION Spec
CONSTANTS
  Reg = {"a"}
  NV = 6
INVARIANTS Refines Triangular Iterates Searches Handshake
CHECK_DEADLOCK FALSE
