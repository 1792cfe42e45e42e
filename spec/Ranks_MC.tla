---------------------------- MODULE Ranks_MC ----------------------------
EXTENDS Ranks
MCSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>}
MCSizes3 == {<<3, 3>>}
=========================================================================
