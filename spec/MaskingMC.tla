----------------------------- MODULE MaskingMC -----------------------------
EXTENDS Masking
L(n, d, b, src, g, gm) == [name |-> n, dims |-> d, bounds |-> b, src |-> src, grid |-> g, gmask |-> gm]
TinyLayout == <<L("x", <<"x">>, "xb", TRUE, FALSE, FALSE), L("xb", <<"x", "nb">>, "", FALSE, FALSE, FALSE),
                L("a", <<"x", "y">>, "", TRUE, FALSE, FALSE), L("b", <<"y">>, "", TRUE, FALSE, FALSE), L("c", <<"x">>, "", TRUE, FALSE, FALSE)>>
TinyLen == [x |-> 2, y |-> 1, nb |-> 2]
FullLayout == <<L("t", <<"t">>, "t_bnds", TRUE, FALSE, FALSE), L("t_bnds", <<"t", "nb">>, "", FALSE, FALSE, FALSE),
    L("y", <<"y">>, "", TRUE, FALSE, FALSE), L("x", <<"x">>, "x_bnds", TRUE, FALSE, FALSE), L("x_bnds", <<"x", "nb">>, "", FALSE, FALSE, FALSE),
    L("data", <<"t", "y", "x">>, "", TRUE, FALSE, FALSE), L("twin", <<"t", "y", "x">>, "", TRUE, FALSE, FALSE),
    L("swapped", <<"x", "t">>, "", TRUE, FALSE, FALSE), L("static", <<"y", "x">>, "", TRUE, FALSE, FALSE), L("flip", <<"x", "y">>, "", TRUE, FALSE, FALSE),
    L("lone", <<"z">>, "", TRUE, FALSE, FALSE), L("scalar", <<>>, "", FALSE, FALSE, FALSE)>>
GridLayout == <<L("t", <<"t">>, "", TRUE, FALSE, FALSE), L("y", <<"y">>, "y_bnds", FALSE, TRUE, FALSE), L("y_bnds", <<"y", "nb">>, "", FALSE, TRUE, FALSE),
    L("x", <<"x">>, "x_bnds", FALSE, TRUE, FALSE), L("x_bnds", <<"x", "nb">>, "", FALSE, TRUE, FALSE),
    L("ocgis_spatial_mask", <<"y", "x">>, "", FALSE, TRUE, TRUE),
    L("data", <<"t", "y", "x">>, "", TRUE, FALSE, FALSE), L("static", <<"y", "x">>, "", TRUE, FALSE, FALSE), L("rot", <<"x", "t", "y">>, "", TRUE, FALSE, FALSE)>>
FullLen == [t |-> 2, y |-> 2, x |-> 3, nb |-> 2, z |-> 2]
GridLen == [t |-> 2, y |-> 3, x |-> 2, nb |-> 2]
=============================================================================
