------------------------------ MODULE StatsMC ------------------------------
EXTENDS Stats
SmallRefs == {<<2000, 1, 1, 0>>}
FullRefs == {<<2000, 1, 1, 0>>, <<1999, 12, 1, 0>>, <<2000, 2, 27, 0>>, <<2001, 11, 15, 0>>, <<1999, 12, 29, 0>>, <<2003, 7, 1, 0>>}
FewVals == {-2, 0, 3, MISS}
ManyVals == -9..9
=============================================================================
