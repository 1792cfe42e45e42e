CONSTANT Reg = {1}
CONSTANT Sizes <- MCSizes3
CONSTANT Lim = 1
SPECIFICATION RSpec
INVARIANT RResult
INVARIANT Same_
INVARIANT Laws
PROPERTY REnds
CHECK_DEADLOCK FALSE
