CONSTANT Reg = {1, 2}
SPECIFICATION Spec
INVARIANT Canonical
INVARIANT Laws
VIEW View
CHECK_DEADLOCK FALSE
