----------------------------- MODULE SpatialMC -----------------------------
EXTENDS Spatial
FewSteps == {2, 6}
FewLo == {0}
FewSz == {1, 4}
FewU == {2}
FewV == {3}
ManySz == 1..9
ManyU == 1..6
ManyV == 1..4
ManySteps == {2, 2, 4, 6, 12}
ManyLo == {-10, -4, 0, 20}
=============================================================================
