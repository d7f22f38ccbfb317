------------------------------ MODULE TimeVarMC ------------------------------
EXTENDS TimeVar
SmallRefs == {<<2000, 2, 28, 0>>, <<1999, 12, 30, 43200>>}
FullRefs == {<<1, 1, 1, 0>>, <<1582, 10, 1, 0>>, <<1582, 10, 15, 0>>, <<1850, 1, 1, 0>>, <<1900, 3, 1, 3600>>, <<1970, 1, 1, 0>>, <<2000, 2, 28, 43200>>,
             <<1999, 12, 30, 0>>, <<2001, 1, 1, 86399>>, <<1500, 2, 28, 0>>, <<1999, 12, 29, 7200>>}
NearDays == {-400, -31, -1, 0, 1, 2, 28, 29, 30, 31, 59, 60, 61, 89, 90, 91, 364, 365, 366, 367, 730, 731, 1460, 1461, 36524, 36525}
LateRefs == FullRefs \ {<<1, 1, 1, 0>>}
=============================================================================
