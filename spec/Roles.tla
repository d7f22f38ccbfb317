--------------------------------- MODULE Roles --------------------------------
(* I03.  Part one: the roles metadata designates, what a caller states instead, and the variables that are data.  Part two:    *)
(* role maps as sets of facts, their editing, conversion to plain data and back, copying and merging.                          *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxSteps, MaxMaps, RoleNames, VarNames

VARIABLES maps, steps, case, i, done

----------------------------------------------------------------------------
\* Part one.  A variable: [name, dims, axis, bounds, clim, mask, gm (grid mapping it is)], "" for an attribute that is missing.
Roles == <<"realization", "time", "level", "y", "x">>
Axis(r) == CASE r = "realization" -> "R" [] r = "time" -> "T" [] r = "level" -> "Z" [] r = "y" -> "Y" [] r = "x" -> "X"
Defaults(r) == CASE r = "time" -> {"time"} [] r = "x" -> {"x", "xc", "longitude", "lon"} [] r = "y" -> {"y", "yc", "latitude", "lat"}
                 [] r = "level" -> {"z", "zc", "level", "lvl", "height"} [] OTHER -> {}
Names(vs) == {vs[k].name : k \in 1..Len(vs)}
Var(vs, n) == vs[CHOOSE k \in 1..Len(vs) : vs[k].name = n]
ByAxis(vs, r) == {n \in Names(vs) : Var(vs, n).axis = Axis(r) /\ Len(Var(vs, n).dims) > 0}
ByName(vs, r) == Names(vs) \cap Defaults(r)
\* the attribute decides; names are asked only if no variable has it; several candidates are none
Designated(vs, r) == LET a == ByAxis(vs, r) c == IF a = {} THEN ByName(vs, r) ELSE a IN IF Cardinality(c) = 1 THEN CHOOSE n \in c : TRUE ELSE ""
BoundsOf(vs, r, n) == LET v == Var(vs, n) b == IF v.bounds # "" THEN v.bounds ELSE IF r = "time" THEN v.clim ELSE "" IN
                      IF r = "realization" \/ b \notin Names(vs) THEN "" ELSE b
DimsOf(vs, r, n) == LET d == Var(vs, n).dims IN IF r = "y" /\ Len(d) > 1 THEN <<d[1]>> ELSE IF r = "x" /\ Len(d) > 1 THEN <<d[2]>> ELSE d
NoRole == [var |-> "", bounds |-> "", dims |-> <<>>]
Detected(vs, r) == LET n == Designated(vs, r) IN IF n = "" THEN NoRole ELSE [var |-> n, bounds |-> BoundsOf(vs, r, n), dims |-> DimsOf(vs, r, n)]
MaskOf(vs) == LET c == {k \in 1..Len(vs) : vs[k].mask} IN IF c = {} THEN "" ELSE vs[CHOOSE k \in c : \A j \in c : k <= j].name
\* stated: sequence of [role, var, bounds, dims]; what is stated is all there is
Stated(vs, st, r) == LET c == {k \in 1..Len(st) : st[k].role = r} IN
                     IF c = {} THEN NoRole ELSE LET s == st[CHOOSE k \in c : TRUE] IN [var |-> s.var, bounds |-> s.bounds, dims |-> IF s.dims = <<>> THEN DimsOf(vs, r, s.var) ELSE s.dims]
RoleOf(c, r) == IF c.given THEN Stated(c.vars, c.stated, r) ELSE Detected(c.vars, r)
MaskRole(c) == IF c.given THEN c.smask ELSE MaskOf(c.vars)
\* what is stated is silent on the coordinate system unless it names one
CrsRole(c) == IF c.given THEN "" ELSE LET k == {n \in Names(c.vars) : Var(c.vars, n).gm # ""} IN IF k = {} THEN "latitude_longitude" ELSE CHOOSE n \in k : TRUE
Holders(c) == {RoleOf(c, r).var : r \in Rng(Roles)} \cup {RoleOf(c, r).bounds : r \in Rng(Roles)} \cup {MaskRole(c)}
\* data: on the time and both spatial axes, without a role
DataOf(c) == IF \E r \in {"time", "y", "x"} : RoleOf(c, r).var = "" \/ RoleOf(c, r).dims = <<>> THEN {}
             ELSE LET need == UNION {Rng(RoleOf(c, r).dims) : r \in {"time", "y", "x"}} IN {n \in Names(c.vars) : need \subseteq Rng(Var(c.vars, n).dims)} \ Holders(c)

R(s) == RandomElement(s)
V(n, d, a, b) == [name |-> n, dims |-> d, axis |-> a, bounds |-> b, clim |-> "", mask |-> FALSE, gm |-> ""]
Dim(r) == CASE r = "realization" -> "dr" [] r = "time" -> "dt" [] r = "level" -> "dz" [] r = "y" -> "dy" [] r = "x" -> "dx"
Odd(r) == r \o "_coordinate"
\* the variables of one axis in one of several styles
AxisVars(r, s, two, b) ==
  LET d == IF two /\ r \in {"x", "y"} THEN <<"dy", "dx">> ELSE IF r = "level" /\ s = "deep" THEN <<"dt", "dz", "dy", "dx">> ELSE <<Dim(r)>>
      bn == IF b = "" THEN "" ELSE r \o "_edges"
      nm == R(Defaults(r) \cup (IF r = "realization" THEN {"member"} ELSE {}))
      bv == IF b = "there" THEN <<V(bn, d \o (IF Len(d) = 2 THEN <<"corner">> ELSE <<"two">>), "", "")>> ELSE <<>>
      main == CASE s \in {"attr", "deep"} -> <<V(Odd(r), d, Axis(r), bn)>>
                [] s = "name" -> <<V(nm, d, "", bn)>>
                [] s = "both" -> <<V(nm, d, "", ""), V(Odd(r), d, Axis(r), bn)>>
                [] s = "agree" -> <<V(nm, d, Axis(r), bn)>>
                [] s = "twin" -> <<V(Odd(r), d, Axis(r), bn), V(Odd(r) \o "_2", d, Axis(r), "")>>
                [] s = "scalar" -> <<V(Odd(r), <<>>, Axis(r), "")>>
                [] s = "names" -> <<V(nm, d, "", bn)>> \o (IF Defaults(r) \ {nm} = {} THEN <<>> ELSE <<V(R(Defaults(r) \ {nm}), d, "", "")>>)
                [] s = "bare" -> <<V(nm, <<>>, "", "")>>
                [] s = "wrong" -> <<V(Odd(r), d, "Q", bn)>>
                [] OTHER -> <<>> IN
  TLCEval(LET m == main k == Len(main) IN
    IF b = "climatology" /\ r = "time" /\ k > 0 THEN [m EXCEPT ![k].bounds = "", ![k].clim = "clim_edges"] \o <<V("clim_edges", <<"dt", "two">>, "", "")>>
    ELSE m \o (IF s \in {"attr", "name", "both", "agree", "twin", "wrong", "deep", "names"} THEN bv ELSE <<>>))
Style(r) == IF r \in {"time", "x", "y"} THEN R({"attr", "attr", "name", "both", "agree", "twin", "scalar", "none", "wrong", "attr ", "agree ", "bare", "names"}) ELSE R({"attr", "name", "none", "both", "scalar", "deep", "agree", "names"})
Trim(s) == IF s = "attr " THEN "attr" ELSE IF s = "agree " THEN "agree" ELSE s
RECURSIVE AllAxes(_, _)
AllAxes(rs, two) == IF rs = <<>> THEN <<>> ELSE TLCEval(AxisVars(Head(rs), Trim(Style(Head(rs))), two, R({"", "there", "there", "missing", "climatology"}))) \o AllAxes(Tail(rs), two)
DataDims == {<<"dt", "dy", "dx">>, <<"dr", "dt", "dz", "dy", "dx">>, <<"dx", "dy", "dt">>, <<"dy", "dx">>, <<"dt">>, <<"dt", "dz">>, <<"dt", "dy", "dx", "extra">>, <<>>, <<"extra", "dt", "dx">>}
RECURSIVE DataVars(_)
DataVars(n) == IF n = 0 THEN <<>> ELSE TLCEval(<<V("data_" \o ToString(n), R(DataDims), "", "")>>) \o DataVars(n - 1)
Fits(vs, r) == {n \in Names(vs) : LET d == Var(vs, n).dims IN ~Var(vs, n).mask /\ (Var(vs, n).axis = Axis(r) \/ n \in Defaults(r) \cup {"member", Odd(r)}) /\ (\A q \in Rng(Roles) \ {r} : n \notin Defaults(q)) /\ (d = <<Dim(r)>> \/ (r \in {"x", "y"} /\ d = <<"dy", "dx">>))}
RECURSIVE StatedFor(_, _)
StatedFor(vs, rs) == IF rs = <<>> THEN <<>> ELSE
  TLCEval(LET r == Head(rs) f == Fits(vs, r) IN IF f = {} \/ R(1..5) = 1 THEN <<>> ELSE LET n == R(f) bs == {b \in Names(vs) : Var(vs, b).dims = Var(vs, n).dims \o (IF Len(Var(vs, n).dims) = 2 THEN <<"corner">> ELSE <<"two">>)} IN
    <<[role |-> r, var |-> n, bounds |-> IF bs # {} /\ r # "realization" /\ R({TRUE, FALSE}) THEN R(bs) ELSE "", dims |-> IF R({TRUE, FALSE}) THEN DimsOf(vs, r, n) ELSE <<>>]>>) \o StatedFor(vs, Tail(rs))
Dataset(z) == TLCEval(LET two == R(1..4) = 1 vs0 == AllAxes(Roles, two) \o DataVars(R(1..3))
                          mk == R({"none", "one", "two"}) vs == vs0 \o (IF mk = "none" THEN <<>> ELSE <<[V("mask_a", <<"dy", "dx">>, "", "") EXCEPT !.mask = TRUE]>>) \o (IF mk = "two" THEN <<[V("mask_b", <<"dy", "dx">>, "", "") EXCEPT !.mask = TRUE]>> ELSE <<>>)
                                     \o (IF R({TRUE, FALSE}) THEN <<[V("system", <<>>, "", "") EXCEPT !.gm = "latitude_longitude"]>> ELSE <<>>)
                          g == R(1..3) = 1 IN
  [vars |-> SetToSeq({<<j, vs[j]>> : j \in 1..Len(vs)}), given |-> g, stated |-> IF g THEN StatedFor(vs, Roles) ELSE <<>>, smask |-> IF g /\ mk # "none" /\ R({TRUE, FALSE}) THEN "mask_a" ELSE "",
   form |-> R({"dict", "map"}), group |-> IF g THEN 0 ELSE R({0, 0 - 1, 0 - 2, 1, 2})])
Ordered(c) == [c EXCEPT !.vars = [j \in 1..Len(c.vars) |-> (CHOOSE p \in Rng(c.vars) : p[1] = j)[2]]]

----------------------------------------------------------------------------
\* Part two.  A role map is a set of facts <<scope, entry, field, value>>; scope "" or a group or topology.
NoMap == {}
Fact(s, e, f, v) == <<s, e, f, v>>
Fixed(e) == CASE e = "time" -> {<<"axis", "T">>} [] e = "realization" -> {<<"axis", "R">>} [] e = "geom" -> {<<"axis", "ocgis_geom">>} [] OTHER -> {}
Drop(m, s, e) == {t \in m : ~(t[1] = s /\ t[2] = e)}
Get(m, s, e) == {t \in m : t[1] = s /\ t[2] = e}
HasVar(m, s, e) == \E t \in m : t[1] = s /\ t[2] = e /\ t[3] = "variable"
\* attributes already there win over those given
SetVar(m, st) ==
  LET old == {t \in Get(m, st.scope, st.entry) : t[4] # "" /\ t[3] \in {"attr:axis", "attr:note"}}
      given == IF st.attr = "" THEN {Fact(st.scope, st.entry, "attr:" \o p[1], p[2]) : p \in Fixed(st.entry)} ELSE {Fact(st.scope, st.entry, "attr:note", st.attr)} IN
  Drop(m, st.scope, st.entry) \cup {Fact(st.scope, st.entry, "variable", st.var)} \cup (IF st.bounds = "" THEN {} ELSE {Fact(st.scope, st.entry, "bounds", st.bounds)})
    \cup (IF st.dim = "" THEN {} ELSE {Fact(st.scope, st.entry, "dimension", st.dim)}) \cup old \cup {t \in given : ~\E u \in old : u[3] = t[3]}
Refused(m, st) == st.op = "bounds" /\ ~HasVar(m, st.scope, st.entry)
Apply(ms, st) ==
  LET m == ms[st.m] IN
  IF Refused(m, st) THEN ms
  ELSE CASE st.op = "set" -> [ms EXCEPT ![st.m] = SetVar(m, st)]
         [] st.op = "clear" -> [ms EXCEPT ![st.m] = Drop(m, st.scope, st.entry)]
         [] st.op = "bounds" -> [ms EXCEPT ![st.m] = {t \in m : ~(t[1] = st.scope /\ t[2] = st.entry /\ t[3] = "bounds")} \cup {Fact(st.scope, st.entry, "bounds", st.bounds)}]
         [] st.op = "crs" -> [ms EXCEPT ![st.m] = Drop(m, st.scope, "crs") \cup {Fact(st.scope, "crs", "variable", st.var)}]
         [] st.op = "mask" -> [ms EXCEPT ![st.m] = Drop(m, st.scope, "spatial_mask") \cup {Fact(st.scope, "spatial_mask", "variable", st.var)} \cup (IF st.attr = "" THEN {} ELSE {Fact(st.scope, "spatial_mask", "attr:note", st.attr)})]
         [] st.op = "property" -> [ms EXCEPT ![st.m] = Drop(m, st.scope, st.entry) \cup {Fact(st.scope, st.entry, "value", st.var)}]
         [] st.op \in {"copy", "plain"} -> Append(ms, m)
         \* what the other map says of an entry replaces what this one says
         [] st.op = "update" -> LET o == ms[st.other] IN [ms EXCEPT ![st.m] = {t \in m : ~\E u \in o : u[1] = t[1] /\ u[2] = t[2]} \cup o]
         [] OTHER -> ms
RECURSIVE PlayM(_, _)
PlayM(ms, ss) == IF ss = <<>> THEN ms ELSE PlayM(TLCEval(Apply(ms, Head(ss))), Tail(ss))
St(op, m, s, e, v, b, d, a, o) == [op |-> op, m |-> m, scope |-> s, entry |-> e, var |-> v, bounds |-> b, dim |-> d, attr |-> a, other |-> o]

\* Model: every history of small maps: an entry holds one variable, bounds only beside a variable, and editing one map leaves the others
Init == maps = <<NoMap>> /\ steps = <<>> /\ case = <<>> /\ i = 0 /\ done = FALSE
Edits == UNION {{St("set", m, s, e, v, b, "d", "", 0) : s \in {"", "g1"}, e \in RoleNames, v \in VarNames, b \in {"", "bb"}} \cup {St("clear", m, "", e, "", "", "", "", 0) : e \in RoleNames} \cup
                  {St("bounds", m, "", e, "", "cc", "", "", 0) : e \in RoleNames} \cup (IF Len(maps) < MaxMaps THEN {St("copy", m, "", "", "", "", "", "", 0)} ELSE {}) \cup
                  {St("update", m, "", "", "", "", "", "", o) : o \in 1..Len(maps)} : m \in 1..Len(maps)}
Next == Len(steps) < MaxSteps /\ \E st \in Edits : maps' = Apply(maps, st) /\ steps' = Append(steps, st) /\ UNCHANGED <<case, i, done>>
Single == \A m \in 1..Len(maps) : \A t, u \in maps[m] : (t[1] = u[1] /\ t[2] = u[2] /\ t[3] = u[3]) => t = u
Beside == \A m \in 1..Len(maps) : \A t \in maps[m] : t[3] = "bounds" => HasVar(maps[m], t[1], t[2])
Apart == [][\A k \in 1..Len(maps) : (k # steps'[Len(steps')].m) => maps'[k] = maps[k]]_<<maps, steps, case, i, done>>

\* Generation
GOps == <<"set", "set", "set", "set", "bounds", "clear", "crs", "mask", "property", "copy", "plain", "plain", "update", "update", "ask">>
GEntry == {"time", "level", "x", "y", "realization", "geom"}
GSt(ms) == TLCEval(LET op == LET z == GOps[R(1..Len(GOps))] IN IF Len(ms) > 3 /\ z \in {"copy", "plain"} THEN "set" ELSE z s == R({"", "", "g1", "g2", "2d", "1d"}) IN
  St(op, R(1..Len(ms)), s, IF op = "property" THEN R({"grid_abstraction", "is_isomorphic", "driver"}) ELSE R(GEntry),
     IF op = "property" THEN "" ELSE R({"va", "vb", "vc"}), IF op = "bounds" \/ R({TRUE, FALSE}) THEN R({"ba", "bb"}) ELSE "", R({"", "da", "db"}), R({"", "", "n1", "n2"}), R(1..Len(ms))))
Prop(st) == IF st.op # "property" THEN st ELSE [st EXCEPT !.var = CASE st.entry = "grid_abstraction" -> R({"point", "polygon"}) [] st.entry = "is_isomorphic" -> R({"yes", "no"}) [] st.entry = "driver" -> R({"netcdf-cf", "netcdf-ugrid"})]
RECURSIVE GSts(_, _)
GSts(ms, n) == IF n = 0 THEN <<>> ELSE CHOOSE q \in {<<st>> \o GSts(TLCEval(Apply(ms, st)), n - 1) : st \in {TLCEval(Prop(GSt(ms)))}} : TRUE
GenInit == case = <<>> /\ maps = <<>> /\ steps = <<>> /\ i = 0 /\ done = FALSE
GenMaps == /\ i < 2 /\ \E n \in {R(1..(MaxSteps + 0 * i))} : \E ss \in {GSts(<<{}, {}>>, n)} : case' = [steps |-> ss]
           /\ i' = i + 1 /\ UNCHANGED <<maps, steps, done>>
GenData == /\ i < 2 /\ \E c \in {Dataset(0)} : case' = TLCEval(Ordered(c))
           /\ i' = i + 1 /\ UNCHANGED <<maps, steps, done>>
Emit == case = <<>> \/ PrintT(<<"CASE", ToJson(case)>>)

----------------------------------------------------------------------------
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ case = <<>> /\ maps = <<>> /\ steps = <<>>
FailData(r) ==
  LET c == r.what IN
  Broken(<<
    <<"opened", r.err = "">>,
    <<"roles", \A k \in 1..Len(r.roles) : [var |-> r.roles[k].var, bounds |-> r.roles[k].bounds, dims |-> r.roles[k].dims] = RoleOf(c, r.roles[k].role)>>,
    <<"all-roles", r.err = "" => {r.roles[k].role : k \in 1..Len(r.roles)} = Rng(Roles)>>,
    <<"mask", r.err = "" => r.smask = MaskRole(c)>>,
    <<"crs", r.err = "" => r.crs = CrsRole(c)>>,
    <<"data", r.err = "" => Rng(r.data) = DataOf(c) /\ Len(r.data) = Cardinality(DataOf(c))>>,
    <<"field", \A k \in 1..Len(r.field) : r.field[k].var = RoleOf(c, r.field[k].role).var /\ r.field[k].bounds = RoleOf(c, r.field[k].role).bounds>>,
    <<"field-data", r.err = "" => Rng(r.fdata) = DataOf(c)>>,
    <<"given-unchanged", r.kept>>>>)
RECURSIVE RefAll(_, _)
RefAll(ms, ss) == IF ss = <<>> THEN <<>> ELSE <<Refused(ms[Head(ss).m], Head(ss))>> \o RefAll(TLCEval(Apply(ms, Head(ss))), Tail(ss))
RefusedAll(ss) == RefAll(<<{}, {}>>, ss)
FailMaps(r) ==
  LET ms == TLCEval(PlayM(<<{}, {}>>, r.steps)) IN
  Broken(<<
    <<"maps", Len(r.maps) = Len(ms)>>,
    <<"facts", \A k \in 1..Min2(Len(r.maps), Len(ms)) : {<<t[1], t[2], t[3], t[4]>> : t \in Rng(r.maps[k])} = ms[k]>>,
    <<"refusals", r.refused = RefusedAll(r.steps)>>>>)
JData == ~done /\ done' = TRUE /\ UNCHANGED <<case, maps, steps, i>> /\ Report(i, FailData(Trace[i]))
JMaps == ~done /\ done' = TRUE /\ UNCHANGED <<case, maps, steps, i>> /\ Report(i, FailMaps(Trace[i]))
=============================================================================
