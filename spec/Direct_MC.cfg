SPECIFICATION Spec
CONSTANTS N = 2
K = 4
INVARIANTS Bounded Factors DetRight NeverStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
