CONSTANT Reg = {1}
CONSTANT Sizes <- MCSizes
CONSTANT Lim = 1
SPECIFICATION RSpec
INVARIANT RResult
INVARIANT Same_
INVARIANT Laws
PROPERTY REnds
CHECK_DEADLOCK FALSE
