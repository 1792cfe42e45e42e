SPECIFICATION Spec
CONSTANTS N = 3
K = 1
INVARIANTS Bounded Factors DetRight NeverStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
