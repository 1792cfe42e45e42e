--------------------------- MODULE Rationals_MC ---------------------------
EXTENDS Rationals
MCNums == -2..3
MCDens == {-2, 0, 1, 3}
===========================================================================
