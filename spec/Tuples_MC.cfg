SPECIFICATION Spec
CONSTANTS MaxN = 7
INVARIANTS Increasing LexOrder Complete
PROPERTIES StaysDone Terminates
