----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Settings
P(n, t, d) == [name |-> n, type |-> t, default |-> d, early |-> FALSE]
E(n, t, d) == [name |-> n, type |-> t, default |-> d, early |-> TRUE]
TinySettings == <<P("A", "bool", "False"), P("B", "str", "None"), E("C", "bool", "True")>>
FullSettings == <<P("OVERWRITE", "bool", "False"), P("DIR_OUTPUT", "str", IOEnv.CWD), P("DIR_GEOMCABINET", "str", "None"),
    P("DIR_SHPCABINET", "str", "None"), P("DIR_DATA", "str", "None"), P("DIR_TEST_DATA", "str", "None"), P("MELTED", "bool", "None"),
    P("MODE", "str", "raw"), P("PREFIX", "str", "ocgis_output"), P("FILL_VALUE", "float", "1e+20"), P("VERBOSE", "bool", "False"),
    P("OPTIMIZE_FOR_CALC", "bool", "False"), P("ENABLE_FILE_LOGGING", "bool", "False"), P("DEBUG", "bool", "False"), P("DIR_BIN", "str", "None"),
    P("USE_SPATIAL_INDEX", "bool", IOEnv.HAVE_RTREE), P("USE_CFUNITS", "bool", IOEnv.HAVE_CF), P("USE_ESMF", "bool", IOEnv.HAVE_ESMF),
    P("USE_ICCLIM", "bool", IOEnv.HAVE_ICCLIM), P("USE_MPI4PY", "bool", IOEnv.HAVE_MPI), P("USE_MEMORY_OPTIMIZATIONS", "bool", "False"),
    P("USE_NETCDF4_MPI", "bool", IOEnv.HAVE_NCPAR), P("CONF_PATH", "str", IOEnv.CONF), P("SUPPRESS_WARNINGS", "bool", "True"),
    P("DEFAULT_GEOM_UID", "str", "UGID"), P("NETCDF_FILE_FORMAT", "str", "NETCDF4"), P("NP_INT", "dtype", IOEnv.NPINT), P("NP_FLOAT", "dtype", "float64"),
    P("ADD_OPS_MPI_BARRIER", "bool", "True"), P("PREFER_NETCDFTIME", "bool", IOEnv.NCTIME), P("CLOBBER_UNITS_ON_BOUNDS", "bool", "True"),
    P("SET_GRID_AXIS_ATTRS", "bool", "True"), P("STRING_MAX_LENGTH", "int", "255"), P("COORDSYS_ACTUAL", "object", "None"), P("DEFAULT_COORDSYS", "object", "CFSpherical")>>
T(a, b) == [text |-> a, value |-> b]
TextsDef == [bool |-> <<T("1", "True"), T("0", "False"), T("true", "True"), T("False", "False"), T("T", "True"), T("f", "False"), T("TRUE", "True"), T("2", "True")>>,
    str |-> <<T("alpha", "alpha"), T("7", "7"), T("/tmp/x y", "/tmp/x y"), T("True", "True")>>,
    float |-> <<T("5", "5.0"), T("-1.5", "-1.5"), T("1e3", "1000.0")>>,
    int |-> <<T("10", "10"), T("300", "300")>>,
    dtype |-> <<T("int32", "int32"), T("float32", "float32")>>, object |-> <<>>]
OverridesDef == [bool |-> <<"True", "False">>, str |-> <<"beta", "7">>, float |-> <<"2.5", "1e+20">>, int |-> <<"12">>,
    dtype |-> <<"int32", "float32">>, object |-> <<"WGS84", "Spherical">>]
TinyTexts == [bool |-> <<T("1", "True"), T("f", "False")>>, str |-> <<T("alpha", "alpha")>>]
TinyOver == [bool |-> <<"True", "False">>, str |-> <<"beta">>]
=============================================================================
