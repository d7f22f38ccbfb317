------------------------------ MODULE GroupsMC ------------------------------
EXTENDS Groups
SmallRefs == {<<2000, 1, 1, 0>>, <<2000, 11, 1, 0>>}
FullRefs == {<<2000, 1, 1, 0>>, <<1999, 12, 1, 0>>, <<2000, 2, 27, 0>>, <<2001, 11, 15, 0>>, <<1999, 12, 29, 0>>, <<2003, 7, 1, 0>>}
=============================================================================
