------------------------------- MODULE SeriesMC -------------------------------
EXTENDS Series
FewVals == {-1, 0, 1}
ManyVals == -3..4
=============================================================================
