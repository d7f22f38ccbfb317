------------------------------ MODULE NetCdfMC ------------------------------
EXTENDS NetCdf
TheScales == {<<1, 2>>, <<1, 1>>, <<2, 1>>, <<5, 1>>, <<1, 4>>}
TheOffsets == {<<0, 1>>, <<0, 1>>, <<10, 1>>, <<3, 2>>, <<-7, 1>>}
=============================================================================
