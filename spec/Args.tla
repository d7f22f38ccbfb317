------------------------------- MODULE Args -------------------------------
(* O03.  The arguments of an operation.  A setting is written as text, the way it stands in a query string; settings      *)
(* which have no such text start with @.  Each has further forms (objects, numbers, lists), raw: tagged tuples the        *)
(* harness turns into Python values.  Settings change one by one; a form outside the domain and a change to settings       *)
(* which contradict one another are refused, and leave everything as it was.                                              *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxSteps, MaxFirst

VARIABLES set, hist, i, done
vars == <<set, hist, i, done>>
----------------------------------------------------------------------------
Bools == {"aggregate", "calc_raw", "snippet", "vector_wrap", "allow_empty", "file_only", "format_time", "calc_sample_size",
  "interpolate_spatial_bounds", "add_auxiliary_files", "select_nearest", "melted", "spatial_reorder", "optimized_bbox_subset", "agg_selection"}
Args == Bools \cup {"spatial_operation", "abstraction", "backend", "output_format", "spatial_wrapping", "time_range", "level_range", "time_region",
  "calc_grouping", "geom_select_uid", "search_radius_mult", "output_crs", "conform_units_to", "prefix", "dir_output", "geom_uid",
  "geom_select_sql_where", "geom", "slice", "calc", "regrid_destination", "regrid_options", "output_format_options", "dataset"}
Default == [a \in Args |->
  CASE a \in {"vector_wrap", "format_time", "add_auxiliary_files"} -> "true" [] a \in Bools -> "false"
    [] a = "spatial_operation" -> "intersects" [] a = "abstraction" -> "auto" [] a = "backend" -> "ocg" [] a = "output_format" -> "ocgis"
    [] a = "prefix" -> "ocgis_output" [] a = "dir_output" -> "@cwd" [] a = "regrid_options" -> "auto" [] a = "dataset" -> "tas" [] OTHER -> "none"]
Nullable == {"abstraction", "spatial_wrapping", "time_range", "level_range", "time_region", "calc_grouping", "geom_select_uid", "search_radius_mult",
  "output_crs", "conform_units_to", "geom_uid", "geom_select_sql_where", "geom", "slice", "calc", "regrid_destination", "output_format_options", "regrid_options"}

----------------------------------------------------------------------------
\* which settings contradict one another
IsIn(a, S) == a \in S
Evals == {"es=tas+4", "es=tas+pr"}
Means == {"mean~m1", "mean~m1|freq_perc~p!percentile~90"}
Window == "moving_window~w!k~3!mode~valid!operation~mean"
Quotient == "divide~q!arr1~tas!arr2~pr"
\* how many selection geometries there are
File == "shapes"
Kept(s) == IF s.geom_select_sql_where = "NAME = 'b'" THEN {2} ELSE IF s.geom_select_sql_where = "NAME IN ('a', 'c')" THEN {1, 3}
  ELSE LET id(k) == IF s.geom_uid = "ID" THEN <<2, 3, 1>>[k] ELSE k
           sel == CASE s.geom_select_uid = "none" -> {1, 2, 3} [] s.geom_select_uid = "2" -> {2} [] s.geom_select_uid = "1|3" -> {1, 3} [] OTHER -> {1, 2, 3} IN
       {k \in 1..3 : id(k) \in sel}
Geoms(s) == IF s.geom = "none" THEN 0 ELSE IF s.geom # File \/ s.agg_selection = "true" THEN 1 ELSE Cardinality(Kept(s))
Area(s) == LET K == Kept(s) IN (IF 1 \in K THEN 1 ELSE 0) + (IF 2 \in K THEN 4 ELSE 0) + (IF 3 \in K THEN 9 ELSE 0)
UidName(s) == IF s.geom_uid = "none" THEN "UGID" ELSE s.geom_uid
\* what the selection geometries really are: the identifier's name, their number and area (of the file only)
Effect(s) == IF s.geom = "none" THEN "none"
  ELSE UidName(s) \o " " \o ToString(Geoms(s)) \o (IF s.geom = File THEN " " \o ToString(Area(s)) ELSE "")

Rules(s) == <<
  <<"slice with geometry", s.slice = "none" \/ s.geom = "none">>,
  <<"snippet with calculation", s.snippet = "false" \/ s.calc = "none">>,
  <<"file only", s.file_only = "false" \/ (s.output_format = "nc" /\ s.calc # "none")>>,
  <<"expression with groups", s.calc \notin Evals \/ s.calc_grouping = "none">>,
  <<"statistic without groups", s.calc \notin Means \/ s.calc_grouping # "none">>,
  <<"window with groups", s.calc # Window \/ s.calc_grouping = "none">>,
  <<"quotient", s.calc # Quotient \/ (s.dataset = "tas|pr" /\ s.calc_sample_size = "false")>>,
  <<"several datasets in one file", s.dataset = "tas" \/ s.output_format \in {"ocgis", "csv", "csv-shp", "meta-ocgis", "shp"}
      \/ (s.output_format = "nc" /\ s.calc \in {Quotient, "es=tas+pr"}) \/ (s.output_format = "geojson" /\ s.calc = "es=tas+pr")>>,
  <<"coordinate system of GeoJSON", s.output_format # "geojson" \/ s.output_crs \in {"none", "4326"}>>,
  <<"clip with regridding", s.regrid_destination = "none" \/ s.spatial_operation = "intersects">>,
  <<"netCDF clip", s.output_format # "nc" \/ s.spatial_operation = "intersects" \/ s.aggregate = "true">>,
  <<"netCDF raw", s.output_format # "nc" \/ s.calc = "none" \/ s.calc_raw = "false">>,
  <<"netCDF aggregate", s.output_format # "nc" \/ s.aggregate = "false" \/ s.geom # "none">>,
  <<"netCDF geometries", s.output_format # "nc" \/ s.aggregate = "true" \/ s.agg_selection = "true" \/ Geoms(s) <= 1>> >>
Consistent(s) == Broken(Rules(s)) = {}
Assign(s, st) == IF st.ok /\ Consistent([s EXCEPT ![st.arg] = st.val]) THEN [s EXCEPT ![st.arg] = st.val] ELSE s
\* the settings a query string gives
InText(v) == v # "" /\ v \notin {"@cwd", "@bilinear", "@classic", "@dest", "@day", "@djf", "@djfu", "@two", "@first", "@last", "@mid", "@auto"}
FromText(s) == [a \in Args |-> IF InText(s[a]) THEN s[a] ELSE Default[a]]

----------------------------------------------------------------------------
\* the forms.  Pick takes one of a sequence, depending on z to be drawn anew
Pick(s, z) == s[RandomElement(1..(Len(s) + 0 * z))]
S(x) == <<"str", x>>
V(v, r) == [ok |-> TRUE, val |-> v, raw |-> r]
B(r) == [ok |-> FALSE, val |-> "", raw |-> r]
None == <<"none">>
I(n) == <<"int", n>>
F(n, d) == <<"frac", n, d>>
L(s) == <<"list", s>>
T(s) == <<"tuple", s>>
D(s) == <<"dict", s>>
D1 == <<"date", "20000101", "000000">>
D2 == <<"date", "20000107", "233000">>
D3 == <<"date", "20011231", "000000">>
Seqs(x) == <<L(x), T(x)>>
Bool(z) == CASE RandomElement(1..(7 + 0 * z)) <= 3 -> V("true", Pick(<<<<"bool", TRUE>>, I(1), S("true"), S("t"), S("1"), S("True"), S("TRUE"), S(" true ")>>, z))
  [] RandomElement(1..(4 + 0 * z)) <= 3 -> V("false", Pick(<<<<"bool", FALSE>>, I(0), S("false"), S("f"), S("0"), S("False"), S("FALSE")>>, z))
  [] OTHER -> B(Pick(<<I(2), I(-1), S("yes"), S("2"), S(""), L(<<>>), F(1, 2), D(<<>>), S("none")>>, z))
Option(vs, z) == LET v == Pick(vs, z) IN V(v[1], Pick(<<S(v[1]), S(v[2]), S(" " \o v[1] \o " ")>>, z))
Season(ms) == [k \in 1..Len(ms) |-> I(ms[k])]
DJF == Season(<<12, 1, 2>>)
JJA == Season(<<6, 7, 8>>)
Mean == D(<<<<"func", S("mean")>>, <<"name", S("m1")>> >>)
Perc == D(<<<<"func", S("freq_perc")>>, <<"name", S("p")>>, <<"kwds", D(<<<<"percentile", I(90)>> >>)>> >>)
PercF == D(<<<<"func", S("freq_perc")>>, <<"name", S("p")>>, <<"kwds", D(<<<<"percentile", F(90, 1)>> >>)>>, <<"meta_attrs", None>> >>)
Div == D(<<<<"func", S("divide")>>, <<"name", S("q")>>, <<"kwds", D(<<<<"arr1", S("tas")>>, <<"arr2", S("pr")>> >>)>> >>)
Win == D(<<<<"func", S("moving_window")>>, <<"name", S("w")>>, <<"kwds", D(<<<<"k", I(3)>>, <<"mode", S("valid")>>, <<"operation", S("mean")>> >>)>> >>)
Good(a, z) ==
  CASE a = "spatial_operation" -> Option(<<<<"clip", "CLIP">>, <<"intersects", "Intersects">>, <<"intersects", "INTERSECTS">> >>, z)
    [] a = "abstraction" -> Option(<<<<"point", "Point">>, <<"polygon", "POLYGON">>, <<"auto", "Auto">>, <<"none", "None">> >>, z)
    [] a = "backend" -> Option(<<<<"ocg", "OCG">> >>, z)
    [] a = "spatial_wrapping" -> Option(<<<<"wrap", "Wrap">>, <<"unwrap", "UNWRAP">>, <<"none", "NONE">> >>, z)
    [] a = "output_format" -> Pick(<<V("csv-shp", S("csv+")), V("ocgis", S("numpy")), V("csv-shp", S("CSV+")), V("ocgis", S("NumPy")),
         Option(<<<<"csv", "CSV">>, <<"csv-shp", "CSV-SHP">>, <<"shp", "Shp">>, <<"ocgis", "OCGIS">>, <<"geojson", "GeoJSON">>, <<"meta-ocgis", "META-OCGIS">> >>, z),
         Option(<<<<"nc", "NC">>, <<"nc", "nc">>, <<"geojson", "GEOJSON">> >>, z), Option(<<<<"nc", "NC">>, <<"nc", "nc">> >>, z)>>, z)
    [] a = "time_range" -> Pick(<<
         V("20000101-000000|20000107-233000", Pick(Seqs(<<D1, D2>>) \o <<S("20000101|20000107-233000"), S("20000101-000000|20000107-233000"), S(" 20000101 | 20000107-233000 ")>>, z)),
         V("20000101-000000|20011231-000000", Pick(Seqs(<<D1, D3>>) \o <<S("20000101|20011231"), S("20000101-000000|20011231-000000")>>, z)),
         V("20000107-233000|20000107-233000", Pick(Seqs(<<D2, D2>>) \o <<S("20000107-233000|20000107-233000")>>, z)), V("none", None), V("none", S("none"))>>, z)
    [] a = "level_range" -> Pick(<<
         V("5|10", Pick(Seqs(<<I(5), I(10)>>) \o Seqs(<<F(5, 1), F(10, 1)>>) \o <<S("5|10"), S("5.0|10.0"), S(" 5 | 10 ")>>, z)),
         V("4.5|6.5", Pick(Seqs(<<F(9, 2), F(13, 2)>>) \o <<S("4.5|6.5")>>, z)), V("7|7", Pick(Seqs(<<I(7), I(7)>>) \o <<S("7|7")>>, z)),
         V("-3|0.25", Pick(Seqs(<<I(-3), F(1, 4)>>) \o <<S("-3|0.25")>>, z)), V("none", None)>>, z)
    [] a = "time_region" -> Pick(<<
         V("month~6|7", Pick(<<D(<<<<"month", L(<<I(6), I(7)>>)>> >>), D(<<<<"month", L(<<I(6), I(7)>>)>>, <<"year", None>> >>), S("month~6|7"), S("MONTH~6|7")>>, z)),
         V("year~2000", Pick(<<D(<<<<"year", L(<<I(2000)>>)>> >>), D(<<<<"year", L(<<I(2000)>>)>>, <<"month", None>> >>), S("year~2000")>>, z)),
         V("month~12|1,year~2000|2001", Pick(<<D(<<<<"month", L(<<I(12), I(1)>>)>>, <<"year", L(<<I(2000), I(2001)>>)>> >>), S("month~12|1,year~2000|2001"), S("year~2000|2001,month~12|1")>>, z)),
         V("none", Pick(<<None, D(<<<<"month", None>>, <<"year", None>> >>), S("none")>>, z))>>, z)
    [] a = "calc_grouping" -> Pick(<<
         V("month|year", Pick(Seqs(<<S("month"), S("year")>>) \o Seqs(<<S("year"), S("month")>>) \o <<S("month|year"), S("year|month"), S("Month|YEAR")>>, z)),
         V("month", Pick(Seqs(<<S("month")>>) \o <<S("month")>>, z)), V("year", Pick(Seqs(<<S("year")>>) \o <<S("year")>>, z)),
         V("day|month|year", Pick(Seqs(<<S("day"), S("month"), S("year")>>) \o <<S("day|month|year"), S("year|day|month")>>, z)),
         V("all", Pick(Seqs(<<S("all")>>) \o <<S("all"), S("ALL")>>, z)), V("none", None), V("none", S("none")),
         V("@djf", Pick(Seqs(<<L(DJF), L(JJA)>>) \o <<T(<<T(DJF), T(JJA)>>), L(<<T(DJF), L(JJA)>>)>>, z)),
         V("@djfu", Pick(Seqs(<<L(DJF), S("unique")>>) \o Seqs(<<S("unique"), L(DJF)>>) \o <<L(<<T(DJF), S("unique")>>)>>, z))>>, z)
    [] a = "geom_select_uid" -> Pick(<<V("2", Pick(Seqs(<<I(2)>>) \o <<S("2"), S(" 2 ")>>, z)), V("1|3", Pick(Seqs(<<I(1), I(3)>>) \o <<S("1|3"), S("1 | 3")>>, z)), V("none", None), V("none", S("none"))>>, z)
    [] a = "search_radius_mult" -> Pick(<<V("0.75", Pick(<<F(3, 4), S("0.75"), S(" 0.75 ")>>, z)), V("2", Pick(<<F(2, 1), S("2.0"), S("2")>>, z)), V("none", None), V("none", S("None"))>>, z)
    [] a = "output_crs" -> Pick(<<V("4326", Pick(<<<<"crs", 4326>>, S("4326")>>, z)), V("3857", Pick(<<<<"crs", 3857>>, S("3857"), S(" 3857")>>, z)), V("none", None), V("none", S("none"))>>, z)
    [] a = "conform_units_to" -> Pick(<<V("celsius", Pick(<<S("celsius"), <<"units", "celsius">> >>, z)), V("K", Pick(<<S("K"), <<"units", "K">> >>, z)), V("none", None)>>, z)
    [] a = "prefix" -> Pick(<<V("Old__man", Pick(<<S("Old__man"), S(" Old__man ")>>, z)), V("p1", S("p1"))>>, z)
    [] a = "dir_output" -> Pick(<<V("Aa", <<"path", "Aa">>), V("b", <<"path", "b">>)>>, z)
    [] a = "geom_uid" -> Pick(<<V("ID", S("ID")), V("UGID", S("UGID")), V("none", None)>>, z)
    [] a = "geom_select_sql_where" -> Pick(<<V("NAME = 'b'", S("NAME = 'b'")), V("NAME IN ('a', 'c')", S("NAME IN ('a', 'c')")), V("none", None), V("none", S("none"))>>, z)
    [] a = "geom" -> LET bb == <<I(-20), I(-10), I(30), I(40)>> p == <<F(5, 2), I(-7)>> IN Pick(<<
         V("-20|-10|30|40", Pick(Seqs(bb) \o Seqs(<<F(-20, 1), F(-10, 1), F(30, 1), F(40, 1)>>) \o <<S("-20|-10|30|40"), S("-20.0|-10.0|30.0|40.0"), <<"box">>, L(<<D(<<<<"geom", <<"box">> >> >>)>>), D(<<<<"geom", <<"box">> >> >>),
            T(<<D(<<<<"geom", <<"box">> >> >>)>>)>>, z)),
         V("2.5|-7", Pick(Seqs(p) \o <<S("2.5|-7"), <<"pt">>, L(<<D(<<<<"geom", <<"pt">> >> >>)>>)>>, z)), V("none", None), V("none", S("none")),
         V(File, <<"path", "shapes">>), V(File, <<"path", "shapes">>), V(File, S("shapes"))>>, z)
    [] a = "slice" -> Pick(<<V("@first", Pick(Seqs(<<None, I(0), None, None, None>>) \o <<D(<<<<"time", I(0)>> >>), D(<<<<"time", <<"slice", 0, 1>> >> >>), L(<<None, L(<<I(0), I(1)>>), None, None, None>>)>>, z)),
         V("@last", Pick(Seqs(<<None, I(-1), None, None, None>>) \o <<D(<<<<"time", I(-1)>> >>)>>, z)),
         V("@mid", Pick(<<L(<<None, None, None, L(<<I(1), I(3)>>), T(<<I(0), I(2)>>)>>), T(<<None, None, None, T(<<I(1), I(3)>>), L(<<I(0), I(2)>>)>>), D(<<<<"y", <<"slice", 1, 3>> >>, <<"x", <<"slice", 0, 2>> >> >>)>>, z)),
         V("none", None), V("none", S("none"))>>, z)
    [] a = "calc" -> Pick(<<
         V("mean~m1", Pick(Seqs(<<Mean>>) \o <<S("mean~m1"), S("MEAN~m1")>> \o Seqs(<<S("mean~m1")>>), z)),
         V("mean~m1|freq_perc~p!percentile~90", Pick(Seqs(<<Mean, Perc>>) \o Seqs(<<Mean, PercF>>) \o <<S("mean~m1|freq_perc~p!percentile~90"), S("mean~m1|freq_perc~p!percentile~90.0"), L(<<S("mean~m1"), Perc>>)>>, z)),
         V("es=tas+4", Pick(Seqs(<<S("es=tas+4")>>) \o Seqs(<<D(<<<<"func", S("es=tas+4")>> >>)>>), z)),
         V("es=tas+pr", Pick(<<S("es=tas+pr")>> \o Seqs(<<S("es=tas+pr")>>), z)),
         V("ln~e1", Pick(Seqs(<<D(<<<<"func", S("ln")>>, <<"name", S("e1")>> >>)>>) \o <<S("ln~e1")>>, z)),
         V(Quotient, Pick(Seqs(<<Div>>) \o <<S(Quotient)>>, z)), V(Window, Pick(Seqs(<<Win>>) \o <<S(Window)>>, z)), V("none", None), V("none", S("none"))>>, z)
    [] a = "regrid_destination" -> Pick(<<V("@dest", <<"field">>), V("tas", S("tas")), V("none", None)>>, z)
    [] a = "regrid_options" -> Pick(<<V("auto", None), V("auto", D(<<<<"regrid_method", S("auto")>> >>)), V("@bilinear", D(<<<<"regrid_method", S("bilinear")>> >>)),
         V("auto", D(<<<<"split", <<"bool", TRUE>> >> >>)), V("auto", D(<<<<"value_mask", None>> >>))>>, z)
    [] a = "output_format_options" -> Pick(<<V("@classic", D(<<<<"data_model", S("NETCDF3_CLASSIC")>> >>)), V("none", None), V("none", S("none"))>>, z)
    [] a = "dataset" -> Pick(<<V("tas", <<"ds", "rd", <<"tas">> >>), V("tas", <<"ds", "list", <<"tas">> >>), V("tas|pr", <<"ds", "list", <<"tas", "pr">> >>), V("tas|pr", <<"ds", "tuple", <<"tas", "pr">> >>)>>, z)
Bad(a, z) ==
  CASE a \in {"spatial_operation", "abstraction", "backend", "output_format", "spatial_wrapping"} -> Pick(<<S("clips"), I(1), S(""), L(<<S("clip")>>), S("pt")>>, z)
    [] a = "time_range" -> Pick(Seqs(<<D2, D1>>) \o Seqs(<<D1>>) \o Seqs(<<D1, D2, D3>>) \o <<S("20000107|20000101"), S("2000-01-01|20000107"), S("20000101"), S("foo"), S(""), L(<<S("20000101"), S("20000107")>>), I(5), S("20000101|20000107|20011231")>>, z)
    [] a = "level_range" -> Pick(Seqs(<<I(10), I(5)>>) \o Seqs(<<I(1)>>) \o Seqs(<<I(1), I(2), I(3)>>) \o <<S("10|5"), S("a|b"), S("5"), I(5), S(""), L(<<S("a"), S("b")>>), S("5|none")>>, z)
    [] a = "time_region" -> Pick(<<D(<<<<"mnth", L(<<I(4)>>)>> >>), D(<<<<"month", L(<<I(13)>>)>> >>), D(<<<<"month", L(<<I(0), I(1)>>)>> >>), S("month~13"), S("month~x"), S("foo"), S("mnth~4"), S(""),
         D(<<<<"month", L(<<S("jan")>>)>> >>), L(<<I(6)>>), D(<<<<"month", F(13, 2)>> >>), S("month~")>>, z)
    [] a = "calc_grouping" -> Pick(Seqs(<<S("d"), S("foo")>>) \o Seqs(<<S("day"), S("day")>>) \o Seqs(<<S("year"), S("year")>>) \o Seqs(<<S("unique")>>) \o <<S("d"), S("month|foo"), S("unique"), S("year|year"), S("month|unique"), S("all|year"),
         L(<<L(<<I(1), I(2)>>), L(<<I(2), I(3)>>)>>), L(<<L(<<I(4), I(4)>>)>>), L(<<L(<<I(66)>>)>>), L(<<L(<<I(0)>>)>>), L(Season(<<3, 4, 5>>)), L(<<L(DJF), S("foo")>>), L(<<L(DJF), S("month")>>), L(<<L(DJF), S("all")>>), L(<<L(DJF), S("unique"), S("year")>>), I(3), S("")>>, z)
    [] a = "geom_select_uid" -> Pick(Seqs(<<I(3), I(3)>>) \o Seqs(<<F(5, 2)>>) \o <<S("1|1"), S("1.5"), S("x"), S(""), I(1), S("1|3.5"), F(197, 2)>>, z)
    [] a = "search_radius_mult" -> Pick(<<F(0, 1), F(-1, 2), S("0"), S("-0.5"), S("abc"), S(""), L(<<F(1, 2)>>)>>, z)
    [] a = "output_crs" -> Pick(<<S("abc"), I(4326), S("999999"), S(""), L(<<>>)>>, z)
    [] a = "conform_units_to" -> Pick(<<S("notaunit"), I(5), L(<<S("K")>>)>>, z)
    [] a = "prefix" -> Pick(<<S(".."), S("a/b"), S(""), I(5), S(".")>>, z)
    [] a = "dir_output" -> Pick(<<<<"path", "missing">>, I(5), L(<<>>)>>, z)
    [] a = "geom_uid" -> Pick(<<I(5), L(<<S("ID")>>)>>, z)
    [] a = "geom_select_sql_where" -> Pick(<<I(5), L(<<S("ID")>>)>>, z)
    [] a = "geom" -> Pick(Seqs(<<I(1), I(2), I(3)>>) \o Seqs(<<I(1), I(2), I(3), I(4), I(5)>>) \o Seqs(<<I(0), I(0), I(0), I(10)>>) \o Seqs(<<S("a"), S("b")>>) \o <<S("1|2|3"), S("1|2|3|4|5"), S("0|0|0|10"), I(5), <<"path", "b">>, D(<<<<"crs", None>> >>),
         L(<<D(<<<<"properties", D(<<>>)>> >>)>>), L(<<I(1)>>), S("5")>>, z)
    [] a = "slice" -> Pick(<<I(4), L(<<None, None>>), L(<<None, L(<<I(0), I(1), I(2), I(3)>>), None, None, None>>), L(<<None, L(<<>>), None, None, None>>), L(<<None, L(<<S("a"), S("b")>>), None, None, None>>), S("0|1"), S("4"), L(<<None, S("1"), None, None, None>>),
         L(<<None, F(1, 2), None, None, None>>), L(<<None, None, None, None, None, None>>), T(<<>>)>>, z)
    [] a = "calc" -> Pick(<<S("mean"), S("bad_mean~x"), L(<<D(<<<<"func", S("mean")>> >>)>>), L(<<D(<<<<"name", S("m")>> >>)>>), L(<<D(<<>>)>>), I(5), S("freq_perc~p"), S("between~b!lower~1"), S("mean~a|mean~a"), S("threshold~t"), L(<<D(<<<<"func", S("bad")>>, <<"name", S("x")>> >>)>>),
         L(<<Mean, Mean>>), L(<<S("mean")>>), S("mean~m!k"), S(""), L(<<I(5)>>)>>, z)
    [] a = "regrid_destination" -> Pick(<<S("nothere"), S("other")>>, z)
    [] a = "regrid_options" -> Pick(<<D(<<<<"foo", I(5)>> >>), D(<<<<"value_mask", S("foo")>> >>), S("foo"), I(5), L(<<>>)>>, z)
    [] a = "output_format_options" -> Pick(<<I(5), S("foo"), L(<<>>)>>, z)
    [] a = "dataset" -> Pick(<<None>>, z)
Step(z) == LET a == RandomElement(IF z < 0 THEN {} ELSE IF RandomElement(1..3) = 1 THEN Bools ELSE Args \ Bools)
               r == IF a \in Bools THEN Bool(z)
                    ELSE IF RandomElement(1..9) = 1 /\ a \notin Nullable THEN B(None)
                    ELSE IF RandomElement(1..3) = 1 THEN B(Bad(a, z)) ELSE Good(a, z) IN
           [arg |-> a, ok |-> r.ok, val |-> r.val, raw |-> r.raw]
\* arguments given at first: None stands for the default there
First(z) == LET a == RandomElement(IF z < 0 THEN {} ELSE IF RandomElement(1..4) = 1 THEN Bools ELSE Args \ (Bools \cup {"dataset"}))
                r == IF a \in Bools THEN Bool(z) ELSE IF RandomElement(1..12) = 1 THEN B(Bad(a, z)) ELSE Good(a, z) IN
            [arg |-> a, ok |-> r.ok, val |-> IF r.raw = None THEN Default[a] ELSE r.val, raw |-> r.raw]

----------------------------------------------------------------------------
\* model: a few arguments, every history of changes
Few == [geom |-> {"none", "shapes"}, slice |-> {"none", "@first"}, calc |-> {"none", "mean~m1", "es=tas+4"}, calc_grouping |-> {"none", "month"},
  output_format |-> {"ocgis", "nc"}, file_only |-> {"false", "true"}, snippet |-> {"false", "true"}, aggregate |-> {"false", "true"}, agg_selection |-> {"false", "true"}, geom_select_uid |-> {"none", "2"}]
Init == set = Default /\ hist = <<>> /\ i = 0 /\ done = FALSE
Next == /\ \E a \in DOMAIN Few : \E ok \in BOOLEAN : \E v \in Few[a] :
             LET st == [arg |-> a, ok |-> ok, val |-> v] IN set' = Assign(set, st) /\ hist' = <<set, st>>
        /\ UNCHANGED <<i, done>>
View == <<set, hist>>
Always == Consistent(set)
\* one setting at most changes, to what was asked for, and only when it may
OneOnly == hist # <<>> => \/ set = hist[1]
                          \/ hist[2].ok /\ set = [hist[1] EXCEPT ![hist[2].arg] = hist[2].val]
Refused == hist # <<>> /\ ~hist[2].ok => set = hist[1]
Taken == hist # <<>> /\ hist[2].ok /\ Consistent([hist[1] EXCEPT ![hist[2].arg] = hist[2].val]) => set[hist[2].arg] = hist[2].val
\* giving back the previous value is always possible
Back == hist # <<>> => Assign(set, [arg |-> hist[2].arg, ok |-> TRUE, val |-> hist[1][hist[2].arg]]) = hist[1]
\* asking twice changes nothing more
Twice == hist # <<>> => Assign(set, hist[2]) = set

\* cases
GenInit == set = <<>> /\ hist = <<>> /\ i = 0 /\ done = FALSE
GenNext ==
  CASE i < MaxFirst -> \E st \in {First(i)} : \E keep \in {RandomElement(1..(2 + 0 * i))} :
         set' = (IF keep = 1 /\ \A k \in 1..Len(set) : set[k].arg # st.arg THEN Append(set, TLCEval(st)) ELSE set) /\ i' = i + 1 /\ UNCHANGED <<hist, done>>
    [] Len(hist) < MaxSteps -> \E st \in {Step(Len(hist))} : hist' = Append(hist, TLCEval(st)) /\ UNCHANGED <<set, i, done>>
    [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<set, hist, i>>
RECURSIVE Fold(_, _, _)
Fold(s, h, n) == IF n > Len(h) THEN s ELSE Fold(Assign(s, h[n]), h, n + 1)
RECURSIVE Given(_, _, _)
Given(s, h, n) == IF n > Len(h) THEN s ELSE Given([s EXCEPT ![h[n].arg] = h[n].val], h, n + 1)
FirstOk(q) == (\A k \in 1..Len(q.first) : q.first[k].ok) /\ Consistent(Given(Default, q.first, 1))
Final(q) == Fold(Given(Default, q.first, 1), q.steps, 1)
Emit == IF done THEN PrintT(<<"CASE", ToJson(LET q == [first |-> set, steps |-> hist] IN
     [first |-> set, steps |-> hist, text |-> IF FirstOk(q) THEN SetToSeq({<<a, FromText(Final(q))[a]>> : a \in {b \in Args : FromText(Final(q))[b] # Default[b]}}) ELSE <<>>])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging.  A seen: [outcome, settings (argument and text), effect]
Seen(s, w) ==
  LET set1 == {<<s.settings[k][1], s.settings[k][2]>> : k \in 1..Len(s.settings)}
      want == {<<a, w[a]>> : a \in Args} IN
  {<<"setting", x[1]>> : x \in {p \in Args \X {0} : <<p[1], w[p[1]]>> \notin set1}}
  \cup (IF s.effect # Effect(w) THEN {<<"selection", "geom">>} ELSE {})
Outcome(s, ok) == IF s.outcome = (IF ok THEN "done" ELSE "refused") THEN {} ELSE {<<"outcome", IF ok THEN "should be taken" ELSE "should be refused">>}
Before(q, n) == Fold(Given(Default, q.first, 1), SubSeq(q.steps, 1, n - 1), 1)
Fail(r) ==
  LET q == r.q IN
  IF ~FirstOk(q) THEN {<<0, x>> : x \in Outcome(r.first, FALSE)}
  ELSE {<<0, x>> : x \in Outcome(r.first, TRUE)} \cup (IF r.first.outcome # "done" THEN {} ELSE {<<0, x>> : x \in Seen(r.first, Given(Default, q.first, 1))}
   \cup (IF Len(r.steps) # Len(q.steps) THEN {<<0, <<"steps", "">> >>} ELSE
     UNION {LET w == Before(q, n) g == Assign(w, q.steps[n])
                ok == q.steps[n].ok /\ Consistent([w EXCEPT ![q.steps[n].arg] = q.steps[n].val]) IN
            {<<n, x>> : x \in Outcome(r.steps[n], ok) \cup Seen(r.steps[n], g)} : n \in 1..Len(q.steps)})
   \cup (LET t == FromText(Final(q)) IN {<<-1, x>> : x \in Outcome(r.text, Consistent(t)) \cup (IF Consistent(t) /\ r.text.outcome = "done" THEN Seen(r.text, t) ELSE {})}))
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ set = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<set, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
