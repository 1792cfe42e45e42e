SPECIFICATION Spec
CONSTANTS
  Reg = {"a", "b"}
  MaxM = 4
INVARIANTS AllBijective GroupLaws CanonLaws ActionLaws SwapLaws
VIEW View
CHECK_DEADLOCK FALSE
