SPECIFICATION Spec
CONSTANT N = 24
INVARIANTS Combination SameDivisors AtEnd DivisionOk GreatestOk PrimeMeans FactorsMean
PROPERTY Terminates
CHECK_DEADLOCK FALSE
