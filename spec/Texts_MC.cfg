CONSTANT N = 17
CONSTANT K = 3
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Rounded
INVARIANT Exact
CHECK_DEADLOCK FALSE
