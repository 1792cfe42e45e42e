SPECIFICATION Spec
CONSTANTS
  Reg = {"a", "b"}
  Nums <- MCNums
  Dens <- MCDens
  Bound = 5
CONSTRAINT Small
INVARIANTS Canonical FieldLaws OrderLaws
VIEW View
CHECK_DEADLOCK FALSE
