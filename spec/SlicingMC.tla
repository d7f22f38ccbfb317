----------------------------- MODULE SlicingMC -----------------------------
EXTENDS Slicing
LensDef == IF Cardinality(DimNames) = 2 THEN [DimNames -> 1..3] ELSE [DimNames -> 2..4]
=============================================================================
