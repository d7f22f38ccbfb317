---- MODULE Rows ----
(* Tabular and vector outputs (I02): one row per element of the data's dimensions and unmasked place.                   *)
(* Places are cells <<y, x>> (one-based); a selection is a set of rectangles of cells; the subset spans the smallest    *)
(* window around them and the cells of the window outside are masked.  The writer goes through elements in order, and   *)
(* selections one after the other add to the same file.                                                                  *)
EXTENDS Judge, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS MaxN, MaxS
VARIABLES q, file, sel, pos, i, done
vars == <<q, file, sel, pos, i, done>>

RectCells(r) == {<<y, x>> : y \in r[1]..r[2], x \in r[3]..r[4]}
SelCells(s) == UNION {RectCells(s[k]) : k \in 1..Len(s)}
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
WindowOf(S) == LET ys == {c[1] : c \in S}  xs == {c[2] : c \in S} IN {<<y, x>> : y \in MinOf(ys)..MaxOf(ys), x \in MinOf(xs)..MaxOf(xs)}

(* An element is <<t, l, y, x>>, zero where the layout has no such dimension.                                            *)
Has(dims, d) == \E k \in 1..Len(dims) : dims[k] = d
Along(R, d, n) == IF Has(R, d) THEN 1..n ELSE {0}
CellsFor(Q, s) == IF Len(Q.sels) = 0 THEN {<<y, x>> : y \in 1..Q.n[3], x \in 1..Q.n[4]} ELSE SelCells(Q.sels[s])
Elements(Q, s) == {<<t, l, c[1], c[2]>> : t \in Along(Q.dims, "t", Q.n[1]), l \in Along(Q.dims, "l", Q.n[2]), c \in CellsFor(Q, s)}

(* Every value in the source is its own number; every hole-th is masked.                                                 *)
\* (a second dataset has a number of its own; its variables have the names of the first's or names of their own)
Value(Q, k, e) == LET D == Q.vars[k].dims  d(n, j) == IF Has(D, n) THEN e[j] ELSE 0 IN k * 10000 + d("t", 1) * 1000 + d("l", 2) * 100 + d("y", 3) * 10 + d("x", 4)
Shown(Q, k, e) == LET v == Value(Q, k, e) IN IF Q.vars[k].hole > 0 /\ v % Q.vars[k].hole = 0 THEN -1 ELSE v
Vals(Q, e) == [k \in 1..Len(Q.vars) |-> Shown(Q, k, e)]
\* the first variable having all the dimensions leads: elements masked there are left out
Lead(Q) == CHOOSE k \in 1..Len(Q.vars) : Rng(Q.vars[k].dims) = Rng(Q.dims) /\ \A j \in 1..(k - 1) : Rng(Q.vars[j].dims) # Rng(Q.dims)
Kept(Q, e) == Shown(Q, Lead(Q), e) # -1
NumSel(Q) == IF Len(Q.sels) = 0 THEN 1 ELSE Len(Q.sels)
Place(e, nx) == (e[3] - 1) * nx + e[4]

(* --- model: the writer --- *)
Layouts == {<<"y", "x">>, <<"t", "y", "x">>, <<"x", "t", "y">>}
Rects(n) == {<<a, b, c, d>> : a \in 1..n, b \in 1..n, c \in 1..n, d \in 1..n}
Good(n) == {r \in Rects(n) : r[1] <= r[2] /\ r[3] <= r[4]}
Sels(n) == {<<r>> : r \in Good(n)} \cup {<<a, b>> : a \in {r \in Good(n) : r[1] = 1 /\ r[3] = 1}, b \in {r \in Good(n) : r[2] = n /\ r[4] = n}}
Init == /\ q \in {[dims |-> d, n |-> <<2, 1, MaxN, MaxN>>, sels |-> ss, vars |-> <<[dims |-> d, hole |-> 3]>>] : d \in Layouts, ss \in UNION {[1..m -> Sels(MaxN)] : m \in 1..MaxS}}
        /\ file = <<>> /\ sel = 1 /\ pos = {} /\ i = 0 /\ done = FALSE
\* the loop goes through the whole window, and leaves out what is masked
Window(Q, s) == {<<t, l, c[1], c[2]>> : t \in Along(Q.dims, "t", Q.n[1]), l \in Along(Q.dims, "l", Q.n[2]), c \in WindowOf(CellsFor(Q, s))}
Next == \/ \E e \in Window(q, sel) \ pos :
             /\ e = CHOOSE f \in Window(q, sel) \ pos : \A g \in Window(q, sel) \ pos : f[1] * 100 + Place(f, 9) <= g[1] * 100 + Place(g, 9)
             /\ pos' = pos \cup {e}
             /\ file' = IF <<e[3], e[4]>> \in CellsFor(q, sel) /\ Kept(q, e) THEN Append(file, [s |-> sel, e |-> e, v |-> Vals(q, e)]) ELSE file
             /\ UNCHANGED <<q, sel, i, done>>
        \/ /\ pos = Window(q, sel) /\ sel < Len(q.sels) /\ sel' = sel + 1 /\ pos' = {} /\ UNCHANGED <<q, file, i, done>>
Laws == /\ \A a, b \in 1..Len(file) : a # b => <<file[a].s, file[a].e>> # <<file[b].s, file[b].e>>
        /\ (sel = Len(q.sels) /\ pos = Window(q, sel)) => {<<r.s, r.e>> : r \in Rng(file)} = UNION {{<<s, e>> : e \in {f \in Elements(q, s) : Kept(q, f)}} : s \in 1..Len(q.sels)}
        /\ \A k \in 1..Len(file) : \A j \in 1..Len(file) : (file[k].v = file[j].v /\ file[k].v[1] # -1) => file[k].e = file[j].e

(* --- requests --- *)
Pick(S) == RandomElement(S)
Perms == {<<"t", "l", "y", "x">>, <<"t", "y", "x">>, <<"l", "y", "x">>, <<"y", "x">>, <<"x", "y">>, <<"y", "t", "x">>, <<"y", "x", "t">>, <<"x", "l", "t", "y">>, <<"t", "l", "x", "y">>}
Small(dims) == {<<"y", "x">>, <<"x", "y">>} \cup (IF Has(dims, "t") THEN {<<"t", "y", "x">>, <<"t">>} ELSE {})
Rect(ny, nx, z) == LET a == Pick(1..(ny + z))  b == Pick(a..ny)  c == Pick(1..(nx + z))  d == Pick(c..nx) IN <<a, b, c, d>>
Sel(ny, nx, z) == LET m == Pick(1..(2 + z)) IN TLCEval([k \in 1..m |-> Rect(ny, nx, z)])
Req(z) ==
  \E dims \in {Pick(IF z < 0 THEN {} ELSE Perms)} : \E ny \in {Pick(1..(3 + z))} : \E nx \in {Pick(1..(3 + z))} : \E ns \in {<<0, 1, 1, 2, 3>>[Pick(1..(5 + z))]} :
  \E nv \in {<<1, 1, 2, 2, 3>>[Pick(1..(5 + z))]} : \E fmt \in {Pick(IF z < 0 THEN {} ELSE {"csv", "csv-shp", "shp", "geojson"})} : \E lead \in {Pick(1..(nv + z))} :
    q' = [dims |-> dims, n |-> <<Pick(1..(3 + z)), Pick(1..(2 + z)), ny, nx>>, fmt |-> fmt, melted |-> Pick(1..(2 + z)) = 1,
          sels |-> TLCEval([s \in 1..ns |-> Sel(ny, nx, z)]), agg |-> Pick(1..(5 + z)) = 1, bounds |-> Pick(1..(2 + z)) = 1,
          tbounds |-> Pick(1..(2 + z)) = 1, lbounds |-> Pick(1..(2 + z)) = 1, curved |-> Pick(1..(4 + z)) = 1, cal |-> Pick(IF z < 0 THEN {} ELSE {"standard", "360_day", "noleap"}),
          memory |-> Pick(1..(3 + z)) = 1, long |-> Pick(1..(2 + z)) = 1, nds |-> IF fmt = "geojson" THEN 1 ELSE <<1, 1, 2>>[Pick(1..(3 + z))], same |-> Pick(1..(2 + z)) = 1, order |-> TLCEval([s \in 1..ns |-> Pick(1..(90 + z))]), aux |-> Pick(1..(2 + z)) = 1,
          vars |-> TLCEval([k \in 1..nv |-> [dims |-> IF k = lead \/ Pick(1..(3 + z)) > 1 THEN dims ELSE Pick(Small(dims)), hole |-> <<0, 0, 2, 3, 1>>[Pick(1..(5 + z))], int |-> Pick(1..(2 + z)) = 1]])]
GenInit == q = [dims |-> <<>>] /\ file = <<>> /\ sel = 0 /\ pos = {} /\ i = 0 /\ done = FALSE
GenNext == i < 1 /\ i' = 1 /\ Req(i) /\ done' = TRUE /\ UNCHANGED <<file, sel, pos>>
Emit == done => PrintT(<<"CASE", ToJson(q)>>)

(* --- vector data: features with attributes written as they are and read again --- *)
VReq(z) ==
  \E m \in {Pick(1..(5 + z))} : \E na \in {Pick(1..(4 + z))} :
    q' = [m |-> m, fmt |-> Pick(IF z < 0 THEN {} ELSE {"csv", "shp", "geojson", "ops-shp", "ops-csv", "ops-geojson"}), kind |-> Pick(IF z < 0 THEN {} ELSE {"point", "polygon", "multi", "line", "mixed"}),
          masked |-> TLCEval({k \in 1..m : Pick(1..(4 + z)) = 1}), memory |-> Pick(1..(2 + z)) = 1,
          types |-> TLCEval([k \in 1..na |-> Pick({"int", "float", "text", "wide"})]), long |-> Pick(1..(3 + z)) = 1,
          none |-> TLCEval({<<k, a>> \in (1..m) \X (1..na) : Pick(1..(5 + z)) = 1})]
VGenNext == i < 1 /\ i' = 1 /\ VReq(i) /\ done' = TRUE /\ UNCHANGED <<file, sel, pos>>

(* --- judging --- *)
\* r.rows: u (which selection), place (0 if not told), t, l, vals (one per variable; melted: all rows have var and one value), gid
Times(x, S) == Cardinality({k \in 1..Len(S) : S[k] = x})
SameBag(A, B) == Len(A) = Len(B) /\ \A x \in Rng(A) : Times(x, A) = Times(x, B)
Told(Q) == Q.fmt # "csv" /\ ~Q.agg
\* unmelted, several datasets may have columns of their own: the others' are empty
Vals2(Q, e, n) == LET V == [k \in 1..Len(Q.vars) |-> IF Shown(Q, k, e) = -1 THEN -1 ELSE Shown(Q, k, e) + (n - 1) * 50000]  N == [k \in 1..Len(Q.vars) |-> -1] IN
                  IF Q.nds = 1 \/ Q.same THEN V ELSE IF n = 1 THEN V \o N ELSE N \o V
Line(Q, s, e, k, n) == [did |-> n, u |-> IF Len(Q.sels) = 0 THEN 0 ELSE s, t |-> e[1], l |-> e[2], place |-> IF Told(Q) THEN Place(e, Q.n[4]) ELSE 0,
                     var |-> IF k = 0 \/ Q.same THEN k ELSE k + (n - 1) * Len(Q.vars),
                     vals |-> IF Q.agg THEN <<>> ELSE IF k = 0 THEN Vals2(Q, e, n) ELSE IF Shown(Q, k, e) = -1 THEN <<-1>> ELSE <<Shown(Q, k, e) + (n - 1) * 50000>>]
\* aggregated: one place for all
Items(Q, s) == LET K == {e \in Elements(Q, s) : Kept(Q, e)} IN IF Q.agg THEN {<<e[1], e[2], 0, 0>> : e \in K} ELSE K
Expected(Q) == FlattenSeq(FlattenSeq([m \in 1..(NumSel(Q) * Q.nds) |-> LET s == ((m - 1) \div Q.nds) + 1  n == ((m - 1) % Q.nds) + 1 IN LET E == SetToSeq(Items(Q, s)) IN
                  [j \in 1..Len(E) |-> IF Q.melted THEN [k \in 1..Len(Q.vars) |-> Line(Q, s, E[j], k, n)] ELSE <<Line(Q, s, E[j], 0, n)>>]]))
Strip(rows) == [k \in 1..Len(rows) |-> [did |-> rows[k].did, u |-> rows[k].u, t |-> rows[k].t, l |-> rows[k].l, place |-> rows[k].place, var |-> rows[k].var, vals |-> rows[k].vals]]
Links(rows) == \A a, b \in 1..Len(rows) : (rows[a].u = rows[b].u /\ rows[a].did = rows[b].did) => ((rows[a].gid = rows[b].gid) <=> (rows[a].place = rows[b].place))
GidWant(Q) == FlattenSeq([m \in 1..(NumSel(Q) * Q.nds) |-> LET s == ((m - 1) \div Q.nds) + 1  C == SetToSeq(CellsFor(Q, s)) IN [j \in 1..Len(C) |-> [did |-> ((m - 1) % Q.nds) + 1, u |-> IF Len(Q.sels) = 0 THEN 0 ELSE s, place |-> (C[j][1] - 1) * Q.n[4] + C[j][2]]]])
Fail(r) == {c[1] : c \in {x \in {
    \* several datasets with names of their own need melted rows in shapefiles
    <<"outcome", r.outcome = "done" \/ (r.outcome = "refused" /\ r.q.fmt = "shp" /\ ((r.q.nds = 2 /\ ~r.q.same /\ ~r.q.melted) \/ (r.q.agg /\ ~r.q.bounds)))>>,
    <<"rows", r.outcome # "done" \/ SameBag(Strip(r.rows), Expected(r.q))>>,
    <<"links", r.outcome # "done" \/ ~Told(r.q) \/ Links(r.rows)>>,
    <<"places file", r.outcome # "done" \/ r.q.fmt # "csv-shp" \/ r.q.agg \/ SameBag(r.gids, GidWant(r.q))>>,
    <<"selections file", r.outcome # "done" \/ Len(r.q.sels) = 0 \/ r.q.fmt = "csv" \/ r.ugids = [s \in 1..Len(r.q.sels) |-> s]>>,
    <<"read again", r.again = <<>> \/ SameBag(Strip(r.again), Expected(r.q))>>} : ~x[2]}}
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ q = <<>> /\ file = <<>> /\ sel = 0 /\ pos = {}
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<i, q, file, sel, pos>> /\ Report(i, Fail(Trace[i]))

\* features: r.want and r.got are sequences of [geom, attrs]
VFail(r) == {c[1] : c \in {x \in {
    <<"outcome", r.outcome = "done">>,
    <<"names", r.outcome # "done" \/ Cardinality(Rng(r.names)) = Len(r.q.types)>>,
    <<"features", r.outcome # "done" \/ r.got = [j \in 1..Len(r.keep) |-> r.want[r.keep[j]]]>>,
    <<"read again", r.outcome # "done" \/ r.again = [j \in 1..Len(r.keep) |-> r.want[r.keep[j]]]>>,
    <<"kept", r.keep = SelectSeq([k \in 1..r.q.m |-> k], LAMBDA k : ~(k \in Rng(r.q.masked)) /\ ~(<<k, 1>> \in Rng(r.q.none)))>>} : ~x[2]}}
VJNext == ~done /\ done' = TRUE /\ UNCHANGED <<i, q, file, sel, pos>> /\ Report(i, VFail(Trace[i]))
====
