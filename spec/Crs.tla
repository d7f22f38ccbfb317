-------------------------------- MODULE Crs --------------------------------
(* S04.  Coordinate systems related exactly: a place is an integer longitude and latitude; a system has a scale f, a       *)
(* meridian l and an offset x, y.  Coordinates follow from the place and the system, whatever the way there.  Selections   *)
(* are boxes of places, given in any system.                                                                              *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxSteps

VARIABLES case, hist, done
vars == <<case, hist, done>>
----------------------------------------------------------------------------
Sys == <<[f |-> 1, l |-> 0, x |-> 0, y |-> 0], [f |-> 2, l |-> 10, x |-> 5, y |-> 7], [f |-> 1, l |-> -20, x |-> 0, y |-> -30], [f |-> 4, l |-> 0, x |-> -100, y |-> 3],
         [f |-> 1, l |-> 0, x |-> 1000, y |-> 2000]>>
To(s, p) == <<Sys[s].f * (p[1] - Sys[s].l) + Sys[s].x, Sys[s].f * p[2] + Sys[s].y>>
From(s, c) == <<(c[1] - Sys[s].x) \div Sys[s].f + Sys[s].l, (c[2] - Sys[s].y) \div Sys[s].f>>
\* a change of coordinates without the place
Change(s, t, c) == LET p == From(s, c) IN To(t, p)

\* model: coordinates of a place, changed again and again
Init == case = [at |-> 1, place |-> <<0, 0>>, c |-> <<0, 0>>] /\ hist = <<>> /\ done = FALSE
Start == hist = <<>> /\ \E p \in (-4..4) \X (-4..4) : \E s \in 1..Len(Sys) : case' = [at |-> s, place |-> p, c |-> To(s, p)] /\ hist' = <<s>> /\ UNCHANGED done
Next == Start \/ (hist # <<>> /\ Len(hist) < MaxSteps /\ \E t \in 1..Len(Sys) : case' = [case EXCEPT !.at = t, !.c = Change(case.at, t, @)] /\ hist' = Append(hist, t) /\ UNCHANGED done)
View == <<case, Len(hist)>>
\* the way does not matter
PathFree == case.c = To(case.at, case.place)
\* giving back the system gives back the coordinates
Undone == \A t \in 1..Len(Sys) : Change(t, case.at, Change(case.at, t, case.c)) = case.c
\* order of coordinates is kept
Ordered == \A t \in 1..Len(Sys) : \A d \in {<<1, 0>>, <<0, 1>>} : LET a == To(t, case.place) b == To(t, <<case.place[1] + d[1], case.place[2] + d[2]>>) IN b[1] >= a[1] /\ b[2] >= a[2] /\ a # b

----------------------------------------------------------------------------
\* cases
R(S, z) == RandomElement(IF z < 0 THEN {} ELSE S)
Square(p) == {<<p[1] - 2, p[2] - 2>>, <<p[1] - 2, p[2] + 2>>, <<p[1] + 2, p[2] - 2>>, <<p[1] + 2, p[2] + 2>>}
\* column i, row j from 0
Center(q, i, j) == IF q.kind = "curvi" THEN <<q.x0 + q.dx * i, q.y0 + q.dy * j + 4 * i>> ELSE <<q.x0 + q.dx * i, q.y0 + q.dy * j>>
Cells(q) == {[id |-> j * q.nx + i + 1, i |-> i, j |-> j, c |-> Center(q, i, j), m |-> (j * q.nx + i + 1) \in ToSet(q.mask), v |-> (j * q.nx + i + 1) \in ToSet(q.vmask)] : i \in 0..(q.nx - 1), j \in 0..(q.ny - 1)}
Choose(z) == LET nx == R(1..3, z) ny == R(1..3, z) n == nx * ny IN
  [kind |-> R({"vector", "vector", "curvi", "geoms", "both"}, z), nx |-> nx, ny |-> ny, x0 |-> 4 * R(-5..5, z), y0 |-> 4 * R(-8..4, z), dx |-> R({4, 8, -4, -8}, z), dy |-> R({4, 8, -4, -8}, z),
   bounds |-> R(BOOLEAN, z), mask |-> IF R(1..2, z) = 1 THEN SetToSeq({k \in 1..n : R(1..4, k) = 1 /\ n > 1 /\ k > 1}) ELSE <<>>, vmask |-> SetToSeq({k \in 1..n : R(1..5, k) = 1}),
   order |-> R(1..6, z), at |-> R(1..Len(Sys), z)]
Box(z) == LET x == 2 * R(-20..14, z) + 1 y == 2 * R(-22..16, z) + 1 IN <<x, y, x + 2 * R(3..25, z), y + 2 * R(3..25, z)>>
Step(z) == [op |-> R({"move", "move", "aside", "grid", "slice", "subset", "subset", "request"}, z), to |-> R(1..Len(Sys), z), out |-> R(0..Len(Sys), z), box |-> Box(z), dim |-> R({"x", "y"}, z), lo |-> R(0..2, z), n |-> R(1..3, z)]
GenInit == case = <<>> /\ hist = <<>> /\ done = FALSE
GenNext ==
  CASE case = <<>> -> \E c \in {Choose(0)} : case' = TLCEval(c) /\ UNCHANGED <<hist, done>>
    [] Len(hist) < MaxSteps -> \E st \in {Step(Len(hist))} : hist' = Append(hist, TLCEval(st)) /\ UNCHANGED <<case, done>>
    [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<case, hist>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([sys |-> Sys, field |-> case, steps |-> [k \in 1..Len(hist) |-> hist[k] @@ [coords |-> <<To(hist[k].to, <<hist[k].box[1], hist[k].box[2]>>), To(hist[k].to, <<hist[k].box[3], hist[k].box[4]>>)>>]]])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging.  A state: system and cells
Inside(q, p, b) == IF q.bounds THEN b[1] < p[1] + 2 /\ b[3] > p[1] - 2 /\ b[2] < p[2] + 2 /\ b[4] > p[2] - 2
                   ELSE b[1] < p[1] /\ p[1] < b[3] /\ b[2] < p[2] /\ p[2] < b[4]
Sub(S, d, lo, n) == LET ks == SetToSortSeq({IF d = "x" THEN c.i ELSE c.j : c \in S}, <) IN
  IF Len(ks) <= lo THEN S ELSE {c \in S : (IF d = "x" THEN c.i ELSE c.j) \in {ks[k] : k \in (lo + 1)..(IF lo + n > Len(ks) THEN Len(ks) ELSE lo + n)}}
\* masked places do not take part
Sel(q, w, st) == {c \in w.cells : ~c.m /\ Inside(q, c.c, st.box)}
\* a rectangle of rows and columns stays, the others masked
Rect(S, T) == {[c EXCEPT !.m = c \notin T] : c \in {x \in S : (\E t \in T : t.i <= x.i) /\ (\E t \in T : t.i >= x.i) /\ (\E t \in T : t.j <= x.j) /\ (\E t \in T : t.j >= x.j)}}
Empty(q, w, st) == st.op \in {"subset", "request"} /\ Sel(q, w, st) = {}
After(q, w, st) ==
  CASE st.op \in {"move", "grid"} -> [w EXCEPT !.at = st.to]
    [] st.op = "slice" -> IF q.kind = "geoms" THEN w ELSE [w EXCEPT !.cells = Sub(w.cells, st.dim, st.lo, st.n)]
    [] st.op \in {"subset", "request"} /\ ~Empty(q, w, st) -> [at |-> IF st.out = 0 THEN w.at ELSE st.out, cells |-> IF q.kind = "geoms" THEN Sel(q, w, st) ELSE Rect(w.cells, Sel(q, w, st))]
    [] OTHER -> w
Row(q, s, c) ==
  <<IF c.v THEN <<-1, -1>> ELSE <<c.id, 100 + c.id>>,
    IF q.kind = "geoms" THEN <<>> ELSE To(s, c.c),
    IF q.kind = "geoms" \/ ~q.bounds THEN {} ELSE {To(s, p) : p \in Square(c.c)},
    IF q.kind \notin {"geoms", "both"} THEN {} ELSE IF q.bounds THEN {To(s, p) : p \in Square(c.c)} ELSE {To(s, c.c)}>>
Field(q, w, v) ==
  LET rows == {<<r[1], r[2], ToSet(r[3]), ToSet(r[4])>> : r \in ToSet(v.rows)}
      live == {c \in w.cells : ~c.m} IN
  {<<"system", 0>> : x \in {y \in ToSet(v.systems) : y # w.at}}
  \cup (IF v.systems = <<>> THEN {<<"no system", 0>>} ELSE {})
  \cup (IF rows # {Row(q, w.at, c) : c \in live} \/ Len(v.rows) # Cardinality(live) THEN {<<"places", 0>>} ELSE {})
  \cup (IF v.times # <<0, 1>> THEN {<<"times", 0>>} ELSE {})
Ok(q, w, st, s) ==
  LET o == IF Empty(q, w, st) THEN "empty" ELSE "done" IN
  (IF s.outcome # o THEN {<<"outcome", 0>>} ELSE {})
  \cup Field(q, After(q, w, st), s.field)
  \cup (IF st.op = "aside" /\ s.outcome = "done" THEN {<<"copy", x>> : x \in Field(q, [w EXCEPT !.at = st.to], s.copy)} ELSE {})
  \cup (IF st.op \in {"subset", "request"} /\ (s.geom # <<To(st.to, <<st.box[1], st.box[2]>>), To(st.to, <<st.box[3], st.box[4]>>)>> \/ s.geomsys # st.to) THEN {<<"selection changed", 0>>} ELSE {})
  \cup (IF st.op \in {"subset", "request", "slice"} /\ s.before # <<>> THEN {<<"source", x>> : x \in Field(q, w, s.before[1])} ELSE {})
RECURSIVE Walk(_, _, _, _, _)
Walk(q, w, steps, seen, k) == IF k > Len(steps) THEN {}
  ELSE {<<k, x>> : x \in Ok(q, w, steps[k], seen[k])} \cup Walk(q, After(q, w, steps[k]), steps, seen, k + 1)
Fail(r) ==
  LET q == r.q.field w == [at |-> q.at, cells |-> Cells(q)] IN
  {<<0, x>> : x \in Field(q, w, r.first)} \cup (IF Len(r.seen) # Len(r.q.steps) THEN {<<0, <<"steps", 0>> >>} ELSE Walk(q, w, r.q.steps, r.seen, 1))
JInit == case \in 1..Len(Trace) /\ hist = <<>> /\ done = FALSE
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<case, hist>> /\ Report(case, Fail(Trace[case]))
=============================================================================
