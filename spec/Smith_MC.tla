---------------------------- MODULE Smith_MC ----------------------------
EXTENDS Smith
MCSizes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>}

MCSizes2 == {<<2, 3>>, <<3, 2>>}
MCSizes3 == {<<3, 3>>}
=========================================================================
