CONSTANT Reg = {1}
SPECIFICATION Spec
INVARIANT Lens
INVARIANT Algebra
VIEW ViewV
CHECK_DEADLOCK FALSE
