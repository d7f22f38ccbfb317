------------------------------- MODULE Records -------------------------------
(* D05.  Going through the elements of a lead variable in row-major order, each record holding the elements of all variables *)
(* at that place.                                                                                                           *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxSize, MaxVars, MaxDims, Modes

VARIABLES cs, pos, out, i, done

\* records of a hidden element of the primary variable (and, in fields, of the lead) are left out unless masked ones are allowed
\* cs: [mode, sizes, vars, allow, primary, melt, reps]; a variable: [dims, mask, bmask, bnd, name, lb, ub, data]
Size(c, ds) == ProdSeq([k \in 1..Len(ds) |-> c.sizes[ds[k]]])
\* the place (numbers from 0 by dimension) of the k-th element (from 0) in row-major order, and back
RECURSIVE Unravel(_, _, _)
Unravel(c, ds, k) == IF ds = <<>> THEN <<>> ELSE LET rest == Size(c, Tail(ds)) IN <<k \div rest>> \o Unravel(c, Tail(ds), k % rest)
RECURSIVE Ravel(_, _, _)
Ravel(c, ds, at) == IF ds = <<>> THEN 0 ELSE Head(at) * Size(c, Tail(ds)) + Ravel(c, Tail(ds), Tail(at))
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
\* element of variable v at the place `at` of the lead
ElemAt(c, v, at) == LET ds == c.vars[v].dims lead == c.vars[1].dims IN Ravel(c, ds, [k \in 1..Len(ds) |-> at[PosIn(lead, ds[k])]])
ValueOf(v, k) == 1000 * v + k
Hidden(c, v, at) == c.vars[v].mask[ElemAt(c, v, at) + 1] = 1
Columns(c, v, at) ==
  LET x == c.vars[v] k == ElemAt(c, v, at) IN
  <<<<x.name, IF Hidden(c, v, at) THEN MISS ELSE ValueOf(v, k)>>>>
  \o (IF x.bnd THEN <<<<x.lb, IF x.bmask[k + 1] = 1 \/ Hidden(c, v, at) THEN MISS ELSE ValueOf(v, k) - 300>>, <<x.ub, IF x.bmask[k + 1] = 1 \/ Hidden(c, v, at) THEN MISS ELSE ValueOf(v, k) + 300>>>> ELSE <<>>)
Melted(c) == {v \in 1..Len(c.vars) : c.melt /\ c.vars[v].data}
RecordsAt(c, at) ==
  IF ~c.allow /\ (Hidden(c, c.primary, at) \/ (c.mode # "collection" /\ Hidden(c, 1, at))) THEN <<>>
  ELSE LET plain == Rng(FlattenSeq([v \in 1..Len(c.vars) |-> IF v \in Melted(c) THEN <<>> ELSE Columns(c, v, at)])) \cup Rng(c.reps) IN
       IF ~c.melt THEN <<plain>>
       ELSE LET ms == SetToSortSeq(Melted(c), LAMBDA a, b : a < b) IN
            [n \in 1..Len(ms) |-> plain \cup {<<"VARIABLE", ms[n]>>, <<"VALUE", Columns(c, ms[n], at)[1][2]>>}]
Expected(c) == LET ds == c.vars[1].dims IN FlattenSeq([k \in 1..Size(c, ds) |-> RecordsAt(c, Unravel(c, ds, k - 1))])

----------------------------------------------------------------------------
Some(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
SeqN(n, rnd, S) == IF rnd THEN {[k \in 1..n |-> RandomElement(S)]} ELSE [1..n -> S]
Perms(S) == SetToSeqs(S)
Bits(n, rnd, p) == IF rnd THEN {[k \in 1..n |-> IF p = 0 THEN 0 ELSE IF RandomElement(1..4) = 1 THEN 1 ELSE 0]} ELSE {[k \in 1..n |-> 0], [k \in 1..n |-> k % 2]}
Var(ds, m, bm, b, nm, data) == [dims |-> ds, mask |-> m, bmask |-> bm, bnd |-> b, name |-> nm, lb |-> "lb_" \o nm, ub |-> "ub_" \o nm, data |-> data]
Names == <<"va", "vb", "vc", "vd">>
SizeOf(sz, ds) == ProdSeq([k \in 1..Len(ds) |-> sz[ds[k]]])
Vars(sz, lead, subs, rnd) ==
  LET n == Len(subs) + 1 IN
  {[v \in 1..n |-> Var(IF v = 1 THEN lead ELSE subs[v - 1], ms[v], [k \in 1..Len(ms[v]) |-> 0], b[v] /\ v > 1 /\ Len(subs[v - 1]) = 1, Names[v], TRUE)]
     : ms \in {[v \in 1..n |-> CHOOSE x \in Bits(SizeOf(sz, IF v = 1 THEN lead ELSE subs[v - 1]), rnd, IF rnd THEN RandomElement({0, 1}) ELSE 1) : rnd \/ (x # [k \in 1..Len(x) |-> 0] \/ Len(x) = 1)]},
       b \in {[v \in 1..n |-> FALSE]}}
Orders(rnd, S) == IF rnd THEN {RandomElement(UNION {Perms(x) : x \in (SUBSET S)})} ELSE UNION {Perms(x) : x \in (SUBSET S)}
\* plain collections: followers on some of the dimensions in any order
Collections(rnd) ==
  UNION {UNION {UNION {{[mode |-> "collection", sizes |-> sz, vars |-> vs, allow |-> a, primary |-> p, melt |-> ml, reps |-> rp]
      : a \in Some(BOOLEAN, rnd), p \in Some(1..Len(vs), rnd), ml \in Some(IF Len(vs) > 1 THEN BOOLEAN ELSE {FALSE}, rnd), rp \in Some({<<>>, <<<<"REP", 7>>>>}, rnd)}
      : vs \in Vars(sz, lead, subs, rnd)}
      : lead \in Some(Perms(1..Len(sz)), rnd), subs \in UNION {IF rnd THEN {[k \in 1..n |-> CHOOSE y \in Orders(TRUE, 1..Len(sz)) : TRUE]} ELSE [1..n -> Orders(FALSE, 1..Len(sz))] : n \in Some(0..(MaxVars - 1), rnd)}}
      : sz \in UNION {SeqN(d, rnd, 1..MaxSize) : d \in Some(1..MaxDims, rnd)}}
\* fields: time, level, geometry as far as the data has them (dimensions 1, 2, 3)
Fields(rnd) ==
  UNION {UNION {{
    LET data == [v \in 1..Len(dd) |-> Var(dd[v], CHOOSE x \in Bits(SizeOf(sz, dd[v]), TRUE, 1) : TRUE, <<>>, FALSE, Names[v], TRUE)]
        crd(d, nm) == Var(<<d>>, CHOOSE x \in Bits(sz[d], TRUE, IF a THEN RandomElement({0, 1}) ELSE 0) : TRUE, CHOOSE x \in Bits(sz[d], TRUE, RandomElement({0, 0, 1})) : TRUE, RandomElement(BOOLEAN), nm, FALSE)
        geo == [Var(<<3>>, CHOOSE x \in Bits(sz[3], TRUE, 1) : TRUE, <<>>, FALSE, "GEOM", FALSE) EXCEPT !.data = FALSE]
        has(d) == d \in Rng(dd[1])
        tm == IF std THEN "TIME" ELSE "time"  lv == IF std THEN "LEVEL" ELSE "level"
        vs == data \o (IF has(3) THEN <<geo>> ELSE <<>>) \o (IF has(1) THEN <<[crd(1, tm) EXCEPT !.lb = IF std THEN "LB_TIME" ELSE @, !.ub = IF std THEN "UB_TIME" ELSE @]>> ELSE <<>>)
                \o (IF has(2) THEN <<[crd(2, lv) EXCEPT !.lb = IF std THEN "LB_LEVEL" ELSE @, !.ub = IF std THEN "UB_LEVEL" ELSE @]>> ELSE <<>>)
    IN [mode |-> IF std THEN "field" ELSE "raw", sizes |-> sz, vars |-> vs, allow |-> a, primary |-> IF has(3) THEN Len(dd) + 1 ELSE 1, melt |-> std /\ ml, reps |-> rp]
    : a \in Some(BOOLEAN, rnd), std \in Some(BOOLEAN, rnd), ml \in Some(BOOLEAN, rnd), rp \in Some({<<>>, <<<<"REP", 7>>>>, <<<<"REP", 7>>, <<"REQ", 8>>>>}, rnd)}
    : dd \in {IF n = 1 THEN <<x>> ELSE <<x, y>> : n \in Some({1, 2}, rnd), x \in {RandomElement((UNION {Perms(s) : s \in SUBSET {1, 2, 3}}) \ {<<>>})}, y \in {<<>>}}}
    : sz \in SeqN(3, rnd, 1..MaxSize)}
\* a second data variable has the dimensions of the first
FixData(c) == [c EXCEPT !.vars = [v \in 1..Len(c.vars) |-> IF v = 2 /\ c.vars[v].data /\ c.vars[v].dims = <<>>
                                   THEN [c.vars[v] EXCEPT !.dims = c.vars[1].dims, !.mask = CHOOSE x \in Bits(SizeOf(c.sizes, c.vars[1].dims), TRUE, 1) : TRUE] ELSE c.vars[v]]]
Nil == [mode |-> "", sizes |-> <<>>, vars |-> <<>>, allow |-> TRUE, primary |-> 1, melt |-> FALSE, reps |-> <<>>]
Init == \E c \in Collections(FALSE) : cs = c /\ pos = [k \in 1..Len(c.vars[1].dims) |-> 0] /\ out = <<>> /\ i = 0 /\ done = FALSE
\* the odometer
AtEnd(c, p) == \A k \in 1..Len(p) : p[k] = c.sizes[c.vars[1].dims[k]] - 1
Advance(c, p) == LET k == CHOOSE k \in 1..Len(p) : p[k] < c.sizes[c.vars[1].dims[k]] - 1 /\ \A m \in (k + 1)..Len(p) : p[m] = c.sizes[c.vars[1].dims[m]] - 1
                 IN [m \in 1..Len(p) |-> IF m < k THEN p[m] ELSE IF m = k THEN p[m] + 1 ELSE 0]
Next == /\ ~done /\ out' = out \o RecordsAt(cs, pos)
        /\ IF AtEnd(cs, pos) THEN done' = TRUE /\ pos' = pos ELSE done' = FALSE /\ pos' = Advance(cs, pos)
        /\ UNCHANGED <<cs, i>>
AllOnce == done => out = Expected(cs)
InOrder == ~done => Len(out) <= (IF cs.melt THEN Cardinality(Melted(cs)) ELSE 1) * Ravel(cs, cs.vars[1].dims, pos)
Complete == (done /\ cs.allow /\ ~cs.melt) => /\ Len(out) = Size(cs, cs.vars[1].dims)
                                /\ \A k \in 1..Len(cs.vars[1].mask) : \E e \in out[k] : e[1] = "va" /\ e[2] = IF cs.vars[1].mask[k] = 1 THEN MISS ELSE ValueOf(1, k - 1)

GenInit == cs = Nil /\ pos = <<>> /\ out = <<>> /\ i = 0 /\ done = FALSE
GenNext == IF cs.mode = "" THEN /\ \E m \in {RandomElement(Modes)} :
                                     \E c \in (IF m = "collection" THEN Collections(TRUE) ELSE Fields(TRUE)) : cs' = FixData(c)
                                /\ UNCHANGED <<pos, out, i, done>>
           ELSE ~done /\ done' = TRUE /\ UNCHANGED <<cs, pos, out, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson(cs)>>) ELSE TRUE

----------------------------------------------------------------------------
AsRecords(s) == [k \in 1..Len(s) |-> {<<s[k][m][1], s[k][m][2]>> : m \in 1..Len(s[k])}]
Fail(r) == LET c == r.cs want == Expected(c) IN
  IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE LET got == AsRecords(r.first) IN
  Broken(<<
    <<"records", got = want>>,
    <<"columns-once", \A k \in 1..Len(r.first) : Len(r.first[k]) = Cardinality(got[k])>>,
    <<"again", AsRecords(r.second) = want>>,
    <<"arguments", r.kept>>,
    <<"source", r.source>> >>)

JInit == i \in 1..Len(Trace) /\ done = FALSE /\ cs = Nil /\ pos = <<>> /\ out = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<cs, pos, out, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
