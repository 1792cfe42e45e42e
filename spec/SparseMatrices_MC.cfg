CONSTANT Reg = {1}
CONSTANT SReg = {1}
SPECIFICATION SSpec
INVARIANT BothWays
VIEW SView
CHECK_DEADLOCK FALSE
