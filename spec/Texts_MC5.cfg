CONSTANT N = 40
CONSTANT K = 5
SPECIFICATION Spec
INVARIANT Faithful
INVARIANT Rounded
INVARIANT Exact
CHECK_DEADLOCK FALSE
