------------------------------ MODULE Pipeline ------------------------------
(* O01.  What an operation gives: for every dataset and selection geometry the source selected in time, level and space,  *)
(* averaged over space and calculated over time in that order (or the reverse for calculations on raw values), tagged     *)
(* with the geometry, and independent of every other dataset and geometry in the request.                                *)
(* Cells are unit squares; geometries are rectangles with corners on odd quarters, so that none merely touches a cell.    *)
EXTENDS Judge, SequencesExt, FiniteSetsExt

CONSTANTS MaxSets, MaxGeoms, Vals     \* 9 among Vals stands for a masked value

\* done: the results so far, as a function from <<dataset, geometry>>; in the model, work is taken in any order
VARIABLES req, out, i, done
vars == <<req, out, i, done>>
----------------------------------------------------------------------------
Masked == <<>>
\* exact numbers <<n, d>>, d > 0
Num(n) == <<n, 1>>
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
EqN(a, b) == (a = Masked /\ b = Masked) \/ (a # Masked /\ b # Masked /\ a[1] * b[2] = b[1] * a[2])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(n) == IF n < 0 THEN -n ELSE n
Red(a) == IF a[1] = 0 THEN <<0, 1>> ELSE LET g == Gcd(AbsI(a[1]), a[2]) IN <<a[1] \div g, a[2] \div g>>
EqualVals(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : Len(a[n]) = Len(b[n]) /\ \A l \in 1..Len(a[n]) : Len(a[n][l]) = Len(b[n][l]) /\ \A k \in 1..Len(a[n][l]) : EqN(a[n][l][k], b[n][l][k])
AddN(a, b) == LET g == Gcd(a[2], b[2]) IN Red(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g)>>)
TimesN(a, k) == LET g == Gcd(k, a[2]) IN <<a[1] * (k \div g), a[2] \div g>>
OverN(a, k) == Red(<<a[1], a[2] * k>>)
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN Num(0) ELSE AddN(Head(s), SumN(Tail(s)))

\* -- selection -----------------------------------------------------------------------------------------------------------
Cell(D, c) == [x |-> 4 * (D.x0 + c[1]), y |-> 4 * (D.y0 + c[2])]         \* lower left corner in quarters
Cells(D) == {<<x, y>> : x \in 0..(D.nx - 1), y \in 0..(D.ny - 1)}
Overlap(D, c, G) == LET p == Cell(D, c) IN
  Max2(0, Min2(p.x + 4, G.x2) - Max2(p.x, G.x1)) * Max2(0, Min2(p.y + 4, G.y2) - Max2(p.y, G.y1))
NoGeom == [id |-> 0, x1 |-> 0, x2 |-> 0, y1 |-> 0, y2 |-> 0, tag |-> 0]
InSlice(R, a, b, v) == R.slice = <<>> \/ (R.slice[a] <= v /\ v < R.slice[b])
CellsOf(R, D, G) == {c \in Cells(D) : /\ (G.id = 0 \/ Overlap(D, c, G) > 0)
                                      /\ InSlice(R, 3, 4, c[2]) /\ InSlice(R, 5, 6, c[1])}
Area(R, D, G, c) == IF G.id # 0 /\ R.op = "clip" THEN Overlap(D, c, G) ELSE 16
CellSeq(S) == SetToSortSeq(S, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
\* days are month * 10 + day, with months 1..24 from January of the first year
MonthOf(d) == (((d \div 10) - 1) % 12) + 1
YearOf(d) == (d \div 10 - 1) \div 12
TimeIn(R, d) == /\ (R.range = <<>> \/ (R.range[1] <= d /\ d <= R.range[2]))
                /\ (R.region = {} \/ MonthOf(d) \in R.region)
KeptTimes(R, D) == SelectSeq([n \in 1..Len(D.days) |-> n], LAMBDA n : TimeIn(R, D.days[n]))
KeptLevels(R, D) == SelectSeq([n \in 1..D.nl |-> n], LAMBDA n : R.levels = <<>> \/ (R.levels[1] <= 10 * n /\ 10 * n <= R.levels[2]))
First(s, b) == IF b /\ s # <<>> THEN <<s[1]>> ELSE s
TimesOf(R, D) == LET s == First(KeptTimes(R, D), R.snippet) IN
  IF R.slice = <<>> THEN s ELSE SubSeq(s, R.slice[1] + 1, Min2(R.slice[2], Len(s)))
LevelsOf(R, D) == First(KeptLevels(R, D), R.snippet)
Scale(R) == IF R.conform THEN 100 ELSE 1
Val(R, D, t, l, c) == LET v == D.vals[t][l][c[2] + 1][c[1] + 1] IN IF v = -1 THEN Masked ELSE Num(v * Scale(R))

\* -- reductions ----------------------------------------------------------------------------------------------------------
IsVal(v) == v # Masked
Real(s) == SelectSeq(s, IsVal)
Fn(f, s) == LET u == Real(s) IN
  IF u = <<>> THEN Masked
  ELSE CASE f = "mean" -> OverN(SumN(u), Len(u)) [] f = "sum" -> SumN(u)
    [] f = "max" -> u[CHOOSE k \in 1..Len(u) : \A m \in 1..Len(u) : ~Lt(u[k], u[m])]
    [] OTHER -> u[CHOOSE k \in 1..Len(u) : \A m \in 1..Len(u) : ~Lt(u[m], u[k])]
Average(vs, ws) == LET u == SelectSeq([k \in 1..Len(vs) |-> k], LAMBDA k : vs[k] # Masked) IN
  IF u = <<>> THEN Masked
  ELSE LET w == FoldSeq(LAMBDA k, a : a + ws[k], 0, u) IN
       OverN(SumN([k \in 1..Len(u) |-> TimesN(vs[u[k]], ws[u[k]])]), w)
GroupKey(R, d) == CASE R.group = "all" -> <<0, 0>> [] R.group = "month" -> <<0, MonthOf(d)>>
    [] R.group = "year" -> <<YearOf(d), 0>> [] OTHER -> <<YearOf(d), MonthOf(d)>>
Groups(R, D, ts) == SetToSortSeq({GroupKey(R, D.days[ts[n]]) : n \in 1..Len(ts)}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))

Empty(R, D, G) == TimesOf(R, D) = <<>> \/ LevelsOf(R, D) = <<>> \/ CellsOf(R, D, G) = {}
\* the result: values over time (or groups), level and place
Result(R, D, G) ==
  IF Empty(R, D, G) THEN [empty |-> TRUE, days |-> <<>>, levels |-> <<>>, places |-> <<>>, areas |-> <<>>, vals |-> <<>>]
  ELSE
  LET ts == TimesOf(R, D) ls == LevelsOf(R, D) cs == CellSeq(CellsOf(R, D, G))
      ws == [k \in 1..Len(cs) |-> Area(R, D, G, cs[k])]
      gs == Groups(R, D, ts)
      steps == IF R.calc \in {"none", "plus"} THEN [n \in 1..Len(ts) |-> <<ts[n]>>]
               ELSE [g \in 1..Len(gs) |-> SelectSeq(ts, LAMBDA t : GroupKey(R, D.days[t]) = gs[g])]
      F(s) == IF R.calc = "none" THEN s[1]
              ELSE IF R.calc = "plus" THEN (IF s[1] = Masked THEN Masked ELSE AddN(s[1], Num(1)))
              ELSE Fn(R.calc, s)
      V(t, l, k) == Val(R, D, t, ls[l], cs[k])
      Av(t, l) == Average([k \in 1..Len(cs) |-> V(t, l, k)], ws)
      One(st, l) ==
        IF ~R.agg THEN [k \in 1..Len(cs) |-> F([n \in 1..Len(st) |-> V(st[n], l, k)])]
        ELSE IF R.raw THEN
          \* a function over groups of times takes the places together itself, without weights; a sum adds them up
          LET fs == [k \in 1..Len(cs) |-> F([n \in 1..Len(st) |-> V(st[n], l, k)])] IN
          IF R.calc \in {"none", "plus"} THEN <<Average(fs, ws)>>
          ELSE IF R.calc = "sum" THEN <<Fn("sum", fs)>>
          ELSE <<Average(fs, [k \in 1..Len(cs) |-> 1])>>
        ELSE <<F([n \in 1..Len(st) |-> Av(st[n], l)])>>
  IN [empty |-> FALSE,
      days |-> IF R.calc \in {"none", "plus"} THEN [n \in 1..Len(ts) |-> D.days[ts[n]]] ELSE <<>>,
      levels |-> [n \in 1..Len(ls) |-> 10 * ls[n]],
      places |-> IF R.agg THEN <<>> ELSE [k \in 1..Len(cs) |-> <<D.x0 + cs[k][1], D.y0 + cs[k][2]>>],
      areas |-> IF R.agg THEN <<FoldSeq(LAMBDA w, a : a + w, 0, ws)>> ELSE ws,
      vals |-> [n \in 1..Len(steps) |-> [l \in 1..Len(ls) |-> One(steps[n], l)]]]
GeomsOf(R) == IF R.geoms = <<>> \/ R.slice # <<>> THEN <<NoGeom>> ELSE R.geoms
Pairs(R) == {<<d, g>> : d \in 1..Len(R.sets), g \in 1..Len(GeomsOf(R))}
Fails(R) == ~R.allow /\ \E p \in Pairs(R) : Empty(R, R.sets[p[1]], GeomsOf(R)[p[2]])

----------------------------------------------------------------------------
\* the model: requests over tiny datasets; the work is done pair by pair in any order; laws of selection and of averages
Hide(v) == IF v = 9 THEN -1 ELSE v
TinyD(vs, x) == [nx |-> 2, ny |-> 1, x0 |-> x, y0 |-> 0, nl |-> 1, days |-> <<11, 12>>, vals |-> [t \in 1..2 |-> <<<< <<Hide(vs[2 * t - 1]), Hide(vs[2 * t])>> >>>>]]
TinyG == [id |-> 7, x1 |-> 1, x2 |-> 7, y1 |-> 1, y2 |-> 3, tag |-> 3]
FarG == [id |-> 8, x1 |-> 5, x2 |-> 99, y1 |-> 1, y2 |-> 3, tag |-> 4]
Tiny(s, gs, op, ag, ca, ra, al) == [sets |-> s, geoms |-> gs, slice |-> <<>>, op |-> op, agg |-> ag, calc |-> ca, raw |-> ra, group |-> "all",
   range |-> <<>>, region |-> {}, levels |-> <<>>, snippet |-> FALSE, conform |-> FALSE, allow |-> al]
Init == /\ \E a, b, c, d \in Vals, x \in {0, 3} : \E gs \in {<<>>, <<TinyG>>, <<TinyG, FarG>>}, op \in {"intersects", "clip"}, ag, ra, al \in BOOLEAN, ca \in {"none", "mean", "max"} :
             req = Tiny(<<TinyD(<<a, b, c, d>>, 0), TinyD(<<d, c, b, a>>, x)>>, gs, op, ag, ca, ra, al)
        /\ out = <<>> /\ i = 0 /\ done = FALSE
Next == /\ \E p \in Pairs(req) \ DOMAIN out : out' = [q \in DOMAIN out \cup {p} |-> IF q = p THEN Result(req, req.sets[p[1]], GeomsOf(req)[p[2]]) ELSE out[q]]
        /\ UNCHANGED <<req, i, done>>
Laws == \A p \in DOMAIN out :
  LET D == req.sets[p[1]] G == GeomsOf(req)[p[2]] r == out[p] IN
  /\ r = Result([req EXCEPT !.sets = <<D>>, !.geoms = IF G.id = 0 THEN <<>> ELSE <<G>>, !.allow = TRUE], D, G)
  /\ ~r.empty =>
       /\ Len(r.vals) = (IF req.calc = "none" THEN 2 ELSE 1)
       /\ \A n \in 1..Len(r.vals), l \in 1..Len(r.levels) : Len(r.vals[n][l]) = Len(r.areas)
       \* an average lies between the extremes of what is averaged
       /\ req.agg /\ req.calc = "max" /\ ~req.raw =>
            LET raw == Result([req EXCEPT !.raw = TRUE], D, G).vals[1][1][1] IN
            /\ (raw = Masked) = (r.vals[1][1][1] = Masked)
            /\ raw # Masked => (\A c \in {1} : (\A t \in 1..2, k \in 1..2 : D.vals[t][1][1][k] # -1) => ~Lt(raw, r.vals[1][1][1]))
       \* clipping reduces areas, and cuts nothing away from values not averaged
       /\ ~req.agg => EqualVals(r.vals, Result([req EXCEPT !.op = "intersects"], D, G).vals)

----------------------------------------------------------------------------
\* cases
RandDays(q) == LET n == RandomElement(1..(5 + 0 * q)) IN
  SortSeq(SetToSeq({10 * RandomElement({1, 1, 2, 3, 12, 13, 14, 24}) + RandomElement(1..(3 + 0 * q)) : k \in 1..n}), LAMBDA a, b : a < b)
RandVal(q) == IF RandomElement(1..(6 + 0 * q)) = 1 THEN -1 ELSE RandomElement(0..9)
RandSet(q) ==
  LET nx == RandomElement(1..(3 + 0 * q)) ny == RandomElement(1..(3 + 0 * q)) nl == RandomElement(1..(2 + 0 * q)) ds == TLCEval(RandDays(q)) IN
  TLCEval([nx |-> nx, ny |-> ny, nl |-> nl, haslevel |-> nl > 1 \/ RandomElement(BOOLEAN), x0 |-> RandomElement(0..(2 + 0 * q)), y0 |-> RandomElement(0..1), days |-> ds,
    kind |-> RandomElement({"field", "file"}), perm |-> RandomElement(0..(2 + 0 * q)),
    vals |-> [t \in 1..Len(ds) |-> [l \in 1..nl |-> [y \in 1..ny |-> [x \in 1..nx |-> RandVal(q)]]]]])
RandGeom(q, k) ==
  LET x1 == 2 * RandomElement(0..(8 + 0 * q)) - 1 y1 == 2 * RandomElement(0..(6 + 0 * q)) - 1 IN
  [id |-> 10 * RandomElement(1..4) + k, x1 |-> x1, x2 |-> x1 + 2 * RandomElement(1..8), y1 |-> y1, y2 |-> y1 + 2 * RandomElement(1..8), tag |-> RandomElement(0..9)]
OneIn(q, n) == RandomElement(1..(n + 0 * q)) = 1
RandReq(s, gs, q) ==
  LET ag == OneIn(q, 2) ra == OneIn(q, 3) gp == RandomElement({"all", "month", "year", "month-year"})
      ca == IF OneIn(q, 3) THEN "none" ELSE IF ag /\ ~ra THEN RandomElement({"max", "min", "plus"}) ELSE RandomElement({"mean", "sum", "max", "min", "plus"})
      nofilter == OneIn(q, 2)
      tn == Min({Len(s[n].days) : n \in 1..Len(s)}) yn == Min({s[n].ny : n \in 1..Len(s)}) xn == Min({s[n].nx : n \in 1..Len(s)}) IN
  TLCEval([geoms |-> gs, op |-> RandomElement({"intersects", "clip"}), agg |-> ag, calc |-> ca, raw |-> ra, group |-> gp,
   slice |-> IF gs = <<>> /\ nofilter /\ OneIn(q, 2) THEN LET t == RandomElement(0..(tn - 1)) y == RandomElement(0..(yn - 1)) x == RandomElement(0..(xn - 1)) IN <<t, t + RandomElement(1..2), y, y + RandomElement(1..2), x, x + RandomElement(1..2)>> ELSE <<>>,
   range |-> IF nofilter THEN <<>> ELSE IF OneIn(q, 2) THEN <<RandomElement({11, 12, 21, 121}), RandomElement({122, 131, 141, 243})>> ELSE IF OneIn(q, 12) THEN <<151, 171>> ELSE <<>>,
   region |-> IF ~nofilter /\ OneIn(q, 2) THEN {RandomElement({1, 2, 12}), RandomElement(1..3)} ELSE {},
   levels |-> IF OneIn(q, 4) /\ \A n \in 1..Len(s) : s[n].haslevel THEN RandomElement({<<5, 15>>, <<10, 20>>, <<15, 40>>, <<10, 10>>}) ELSE <<>>,
   snippet |-> ca = "none" /\ ~nofilter /\ OneIn(q, 2), conform |-> OneIn(q, 4), allow |-> OneIn(q, 2)])
GenInit == req = [sets |-> <<>>, geoms |-> <<>>, rest |-> <<>>, ng |-> -1, ns |-> 0] /\ out = <<>> /\ i = 0 /\ done = FALSE
GenNext ==
  CASE req.ng = -1 -> /\ \E n \in {RandomElement(1..(MaxSets + 0 * i))}, m \in {RandomElement(0..(MaxGeoms + 0 * i))} : req' = [req EXCEPT !.ng = m, !.ns = n]
                      /\ UNCHANGED <<out, i, done>>
    [] req.ng >= 0 /\ Len(req.sets) < req.ns -> /\ \E s \in {RandSet(0 * Len(req.sets))} : req' = [req EXCEPT !.sets = Append(@, s)]
                                              /\ UNCHANGED <<out, i, done>>
    [] req.ng >= 0 /\ Len(req.sets) = req.ns /\ Len(req.geoms) < req.ng -> /\ \E g \in {RandGeom(0 * Len(req.geoms), Len(req.geoms) + 1)} : req' = [req EXCEPT !.geoms = Append(@, g)]
                                                                           /\ UNCHANGED <<out, i, done>>
    [] req.ng >= 0 /\ Len(req.sets) = req.ns /\ Len(req.geoms) = req.ng /\ req.rest = <<>> ->
         /\ \E r \in {RandReq(req.sets, req.geoms, 0 * Len(req.sets))} : req' = [req EXCEPT !.rest = <<r>>]
         /\ UNCHANGED <<out, i, done>>
    [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<req, out, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([sets |-> req.sets, rest |-> [req.rest[1] EXCEPT !.region = SetToSeq(@)]])>>) ELSE TRUE

\* requests of other kinds, executed as a whole, piece by piece, in reverse order and from files: only equality is asked for
RelOf(q) == TLCEval([crs |-> <<"spherical", "spherical", "wgs84", "wgs84">>[RandomElement(1..(4 + 0 * q))], wide |-> OneIn(q, 2), outcrs |-> <<"none", "none", "none", "none", "wgs84", "wgs84", "wgs84", "wgs84", "albers">>[RandomElement(1..(9 + 0 * q))],
   wrap |-> RandomElement({"none", "wrap", "unwrap"}), reorder |-> OneIn(q, 4), interp |-> OneIn(q, 4), points |-> OneIn(q, 3), nearest |-> OneIn(q, 3), radius |-> OneIn(q, 2),
   op |-> RandomElement({"intersects", "clip"}), agg |-> OneIn(q, 3), nds |-> RandomElement(1..(2 + 0 * q)), ng |-> RandomElement(0..(3 + 0 * q)), bounds |-> OneIn(q, 2), kind |-> RandomElement({"field", "file"}),
   seed |-> RandomElement(1..(10000 + 0 * q)), vector |-> OneIn(q, 2)])
RelInit == req = <<>> /\ out = <<>> /\ i = 0 /\ done = FALSE
RelNext == IF req = <<>> THEN (\E r \in {RelOf(i)} : req' = r) /\ UNCHANGED <<out, i, done>> ELSE ~done /\ done' = TRUE /\ UNCHANGED <<req, out, i>>
RelEmit == IF done THEN PrintT(<<"CASE", ToJson(req)>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging.  r.sets, r.rest: the request; r.outcome; r.results: one for every container and field in the order met;
\* r.order: the identifiers of the containers in order
ReqOf(r) == [r.rest EXCEPT !.region = Rng(r.rest.region)] @@ [sets |-> r.sets]
GotOf(r, d, g) == LET S == {n \in 1..Len(r.results) : r.results[n].set = d /\ r.results[n].id = g} IN r.results[CHOOSE n \in S : TRUE]
ResultFail(R, d, G, o) ==
  LET w == Result(R, R.sets[d], G) IN
  IF o.empty # w.empty THEN {"empty"}
  ELSE IF w.empty THEN {}
  ELSE Broken(<<
    <<"tag", o.tag = G.tag>>,
    <<"steps", Len(o.vals) = Len(w.vals)>>,
    <<"days", R.calc \in {"none", "plus"} => o.days = w.days>>,
    <<"levels", R.sets[d].haslevel => o.levels = w.levels>>,
    <<"places", R.agg \/ o.places = w.places>>,
    <<"areas", o.areas = w.areas>>,
    <<"gid", ~(R.agg /\ G.id # 0) \/ o.gid = G.id>>,
    <<"values", EqualVals(o.vals, w.vals)>> >>)
Fail(r) ==
  LET R == ReqOf(r) gs == GeomsOf(R) IN
  Broken(<<<<"source", r.source>> >>) \cup
  (IF Fails(R) THEN Broken(<<<<"not-refused", r.outcome = "empty">> >>)
   ELSE IF r.outcome # "done" THEN {"fails"}
   ELSE IF {<<r.results[n].set, r.results[n].id>> : n \in 1..Len(r.results)} # {<<d, gs[g].id>> : d \in 1..Len(R.sets), g \in 1..Len(gs)}
        \/ Len(r.results) # Len(R.sets) * Len(gs) THEN {"results"}
   ELSE Broken(<<<<"order", r.order = [g \in 1..Len(gs) |-> gs[g].id]>> >>)
        \cup UNION {{<<x, d, gs[g].id>> : x \in ResultFail(R, d, gs[g], GotOf(r, d, gs[g].id))} : d \in 1..Len(R.sets), g \in 1..Len(gs)})
\* r.whole, r.alone, r.reverse, r.other: for every dataset and geometry [key, text]; texts differ where results do
TextOf(s, k) == s[CHOOSE n \in 1..Len(s) : s[n].key = k].text
KeysOf(s) == {s[n].key : n \in 1..Len(s)}
SameParts(a, b) == KeysOf(a) = KeysOf(b) /\ \A k \in KeysOf(a) : TextOf(a, k) = TextOf(b, k)
RelFail(r) == Broken(<<
  <<"source", r.source>>,
  <<"alone", SameParts(r.whole, r.alone)>>,
  <<"reverse", SameParts(r.whole, r.reverse)>>,
  <<"again", SameParts(r.whole, r.again)>>,
  <<"allow-empty", SameParts(r.whole, r.allow)>> >>)
KJInit == i \in 1..Len(Trace) /\ done = FALSE /\ req = <<>> /\ out = <<>>
KJNext == ~done /\ done' = TRUE /\ UNCHANGED <<req, out, i>> /\ Report(i, RelFail(Trace[i]))
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ req = <<>> /\ out = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<req, out, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
