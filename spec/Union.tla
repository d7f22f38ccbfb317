-------------------------------- MODULE Union --------------------------------
(* S03.  Clipping, masking and unioning a field over its geometries.  A geometry is the set of unit squares it covers (a  *)
(* point covers none); a variable has a value for every index of its other dimensions ("place") and element.  Unioning    *)
(* gives the union of the unmasked geometries and, for every variable averaged and every other index, the mean of the     *)
(* unmasked values weighted by the area the element contributes.                                                        *)
EXTENDS Judge, SequencesExt, FiniteSetsExt

CONSTANTS Width, MaxN, Vals     \* the model's plane and values

VARIABLES f, hist, i, done
vars == <<f, hist, i, done>>
----------------------------------------------------------------------------
\* A field f: kind "grid", "shapes" or "points"; sq: element -> set of squares (points: element -> set of positions);
\* gm: the masked elements; data: variables with kept dimensions `other` (sequence of names with sizes), vals[p][e].
Area(F, e) == IF F.kind = "points" THEN (IF F.sq[e] = {} THEN 0 ELSE 1) ELSE Cardinality(F.sq[e])
Els(F) == 1..Len(F.sq)
Alive(F) == {e \in Els(F) : e \notin F.gm}
Whole(F) == UNION {F.sq[e] : e \in Alive(F)}
SumOver(S, Op(_)) == MapThenSumSet(Op, S)
\* <<>> is masked
Mean(F, v) == LET E == {e \in Alive(F) : v[e] # MISS /\ Area(F, e) > 0}
                  d == SumOver(E, LAMBDA e : Area(F, e))
              IN IF E = {} THEN <<>> ELSE <<SumOver(E, LAMBDA e : Area(F, e) * v[e]), d>>
Means(F) == [n \in 1..Len(F.data) |-> [p \in 1..Len(F.data[n].vals) |-> Mean(F, F.data[n].vals[p])]]

\* -- operations before the union -----------------------------------------------------------------------------------------
\* A selection shape is a set of squares.  Elements that share no area (points: do not lie within) are masked, with their data.
Hit(F, e, S) == F.sq[e] \cap S # {}
MaskEls(F, M) == [F EXCEPT !.gm = F.gm \cup M]
Clip(F, S) == LET G == MaskEls(F, {e \in Els(F) : ~Hit(F, e, S)}) IN [G EXCEPT !.sq = [e \in Els(F) |-> F.sq[e] \cap S]]
Intersects(F, S) == MaskEls(F, {e \in Els(F) : ~Hit(F, e, S)})
\* the clip alone: an element left with nothing contributes nothing
Cut(F, S) == [F EXCEPT !.sq = [e \in Els(F) |-> F.sq[e] \cap S]]
Apply(F, o) == CASE o.op = "clip" -> Clip(F, o.shape) [] o.op = "intersects" -> Intersects(F, o.shape)
                 [] o.op = "cut" -> Cut(F, o.shape) [] o.op = "mask" -> MaskEls(F, o.els)
                 [] o.op = "blank" -> [F EXCEPT !.data = [n \in 1..Len(F.data) |-> [F.data[n] EXCEPT !.vals = [p \in 1..Len(F.data[n].vals) |->
                        [e \in Els(F) |-> IF e \in o.els THEN MISS ELSE F.data[n].vals[p][e]]]]]]
RECURSIVE Run(_, _)
Run(F, h) == IF h = <<>> THEN F ELSE Run(Apply(F, Head(h)), Tail(h))
Empty(F, h) == \E n \in 1..Len(h) : h[n].op \in {"clip", "intersects"} /\ Alive(Run(F, SubSeq(h, 1, n))) = {}

----------------------------------------------------------------------------
(* The model: every short history over a small plane; laws of the union.                                                 *)
Plane == (0..(Width - 1)) \X {0, 1}
Shapes == {S \in SUBSET Plane : \E a, b \in 0..(Width - 1), c, d \in {0, 1} : S # {} /\ S = {p \in Plane : a <= p[1] /\ p[1] <= b /\ c <= p[2] /\ p[2] <= d}}
Init == /\ \E n \in 1..MaxN : \E sq \in [1..n -> Shapes], v \in [1..n -> Vals], w \in Vals :
             f = [kind |-> "shapes", sq |-> sq, gm |-> {}, data |-> <<[vals |-> <<v, [e \in 1..n |-> w]>>]>>]
        /\ hist = <<>> /\ i = 0 /\ done = FALSE
Ops == [op : {"clip", "intersects", "cut"}, shape : Shapes] \cup [op : {"mask", "blank"}, els : {{e} : e \in Els(f)}]
Next == /\ ~done
        /\ \/ \E o \in Ops : hist' = Append(hist, o) /\ f' = Apply(f, o) /\ UNCHANGED done
           \/ done' = TRUE /\ UNCHANGED <<f, hist>>
        /\ Len(hist') < 3 /\ UNCHANGED i
Between(F, m, v) == LET R == {v[e] : e \in {e \in Alive(F) : v[e] # MISS /\ F.sq[e] # {}}} IN
  IF m = <<>> THEN R = {} ELSE \E a, b \in R : a * m[2] <= m[1] /\ m[1] <= b * m[2]
Same(a, b) == (a = <<>> /\ b = <<>>) \/ (a # <<>> /\ b # <<>> /\ a[1] * b[2] = b[1] * a[2])
\* splitting an element into its squares changes nothing
RECURSIVE SplitOf(_, _)
SplitOf(F, e) == IF e > Len(F.sq) THEN <<>> ELSE
  LET s == SetToSeq(F.sq[e]) IN [k \in 1..Len(s) |-> <<{s[k]}, e>>] \o SplitOf(F, e + 1)
Split(F) == LET s == SplitOf(F, 1) IN
  [kind |-> F.kind, sq |-> [k \in 1..Len(s) |-> s[k][1]], gm |-> {k \in 1..Len(s) : s[k][2] \in F.gm},
   data |-> [n \in 1..Len(F.data) |-> [vals |-> [p \in 1..Len(F.data[n].vals) |-> [k \in 1..Len(s) |-> F.data[n].vals[p][s[k][2]]]]]]]
Laws == LET m == Means(f)[1] IN
  /\ \A p \in 1..2 : Between(f, m[p], f.data[1].vals[p])
  /\ LET s == Split(f) IN Whole(s) = Whole(f) /\ \A p \in 1..2 : Same(Means(s)[1][p], m[p])
  \* a further clip to what is left changes nothing; what is clipped twice is clipped to the common part
  /\ \A p \in 1..2 : Same(Means(Clip(f, Whole(f)))[1][p], m[p])
  /\ \A S \in {{p \in Plane : p[1] <= k} : k \in 0..(Width - 1)} : \A n \in 1..Len(hist) : hist[n].op = "clip" =>
        Means(Clip(f, S)) = Means(Clip(Clip(f, S), hist[n].shape)) /\ Whole(Clip(f, S)) = Whole(Cut(f, S))
  \* masking an element or cutting it away are the same for the union
  /\ \A e \in Els(f) : Means(MaskEls(f, {e})) = Means([f EXCEPT !.sq[e] = {}]) /\ Whole(MaskEls(f, {e})) = Whole([f EXCEPT !.sq[e] = {}])

----------------------------------------------------------------------------
(* Random fields and histories for the real code.                                                                        *)
OneIn(q, n) == RandomElement(1..(n + 0 * q)) = 1
Box(q) == LET x == RandomElement(-1..(7 + 0 * q)) y == RandomElement(-1..(5 + 0 * q)) IN
  [x |-> x, y |-> y, w |-> RandomElement(1..(5 + 0 * q)), h |-> RandomElement(1..(4 + 0 * q))]
SquaresOf(b) == {<<x, y>> : x \in b.x..(b.x + b.w - 1), y \in b.y..(b.y + b.h - 1)}
Boxes(q) == LET a == Box(q) b == Box(q + 1) IN
  IF OneIn(q, 3) THEN SquaresOf(a) \cup SquaresOf(b) ELSE SquaresOf(a)
Some(q, n) == {e \in 1..n : OneIn(q + e, 5)}
VarOf(q, n, kind) ==
  LET \* kept dimensions before, between and after the spatial ones
      dims == IF kind = "grid"
        THEN <<<<"y", "x">>, <<"t", "y", "x">>, <<"t", "l", "y", "x">>, <<"y", "t", "x">>, <<"x", "y", "t">>, <<"x", "y">>, <<"l", "x", "t", "y">>, <<"t", "x", "y">>, <<"y", "x", "l", "t">>>>[RandomElement(1..(9 + 0 * q))]
        ELSE <<<<"n">>, <<"t", "n">>, <<"n", "t">>, <<"t", "l", "n">>, <<"l", "n", "t">>, <<"n", "l", "t">>>>[RandomElement(1..(6 + 0 * q))]
      np == (IF "t" \in Rng(dims) THEN 2 ELSE 1) * (IF "l" \in Rng(dims) THEN 3 ELSE 1)
  IN [dims |-> dims, type |-> RandomElement({"f8", "f4", "i4"}), wanted |-> TRUE, masked |-> OneIn(q, 2),
      vals |-> LET m == OneIn(q, 2) IN TLCEval([p \in 1..np |-> [e \in 1..n |-> IF m /\ RandomElement(1..(3 + 0 * q)) = 1 THEN MISS ELSE RandomElement(0..(30 + 0 * q))]])]
FieldOf(q) ==
  LET kind == <<"grid", "grid", "shapes", "points">>[RandomElement(1..(4 + 0 * q))]
      nx == RandomElement(1..(4 + 0 * q))  ny == RandomElement(1..(3 + 0 * q))
      n == IF kind = "grid" THEN nx * ny ELSE nx + ny - 1
      xs == TLCEval([k \in 0..nx |-> 2 * k]) ys == TLCEval([k \in 0..ny |-> k + (IF k = ny THEN RandomElement(0..(1 + 0 * q)) ELSE 0)])
      sq == IF kind = "grid" THEN [e \in 1..n |-> LET r == (e - 1) \div nx c == (e - 1) % nx IN {<<x, y>> : x \in xs[c]..(xs[c + 1] - 1), y \in ys[r]..(ys[r + 1] - 1)}]
            ELSE IF kind = "shapes" THEN [e \in 1..n |-> Boxes(q + e)]
            ELSE [e \in 1..n |-> IF OneIn(q, 4) THEN {<<RandomElement(0..(4 + 0 * q)), RandomElement(0..(3 + 0 * q))>>, <<RandomElement(0..(4 + 0 * q)), 4>>} ELSE {<<RandomElement(0..(4 + 0 * q)), RandomElement(0..(3 + 0 * q))>>}]
      nv == RandomElement(1..(2 + 0 * q))
  IN TLCEval([kind |-> kind, nx |-> nx, ny |-> ny, xs |-> [k \in 1..(nx + 1) |-> xs[k - 1]], ys |-> [k \in 1..(ny + 1) |-> ys[k - 1]],
      sq |-> sq, gm |-> IF OneIn(q, 3) THEN Some(q, n) ELSE {}, data |-> [k \in 1..nv |-> VarOf(q + k, n, kind)]])
OpOf(q, n) == LET o == <<"clip", "clip", "clip", "intersects", "cut", "mask", "blank">>[RandomElement(1..(7 + 0 * q))] IN
  IF o \in {"mask", "blank"} THEN [op |-> o, els |-> Some(q, n)] ELSE [op |-> o, shape |-> Boxes(q)]
GenInit == f = [kind |-> ""] /\ hist = <<>> /\ i = 0 /\ done = FALSE
GenNext == \/ i = 0 /\ f' \in {FieldOf(i)} /\ hist' = <<>> /\ i' = 1 /\ done' = FALSE
           \/ i > 0 /\ i < 4 /\ UNCHANGED f /\ i' = i + 1 /\ done' = (i = 3)
              /\ \E o \in {OpOf(i, Len(f.sq))} : hist' = IF OneIn(i, 2) THEN Append(hist, o) ELSE hist
Emit == done => PrintT(<<"CASE", ToJson([f |-> f, hist |-> hist, way |-> RandomElement({"union", "union", "operations"}), over |-> RandomElement({"all", "x", "y"}), mask |-> RandomElement({"fill", "zero"})])>>)

----------------------------------------------------------------------------
(* Judging an execution: the geometry found (as squares and area), the averages and what is left of the rest.             *)
OpIn(o) == IF "els" \in DOMAIN o THEN [op |-> o.op, els |-> Rng(o.els)] ELSE [op |-> o.op, shape |-> Rng(o.shape)]
FieldIn(r) == [kind |-> r.f.kind, sq |-> [e \in 1..Len(r.f.sq) |-> Rng(r.f.sq[e])], gm |-> Rng(r.f.gm), data |-> r.f.data]
Fail(r) == LET F0 == FieldIn(r)  h == [n \in 1..Len(r.hist) |-> OpIn(r.hist[n])]  F == Run(F0, h)  M == Means(F) IN
  IF Empty(F0, h) THEN Broken(<<<<"empty-refused", r.outcome = "refused">>>>)
  ELSE IF r.outcome # "done" THEN Broken(<<<<"done", FALSE>>>>)
  ELSE Broken(<<
    <<"one-geometry", r.size = 1>>,
    <<"union", Rng(r.squares) = Whole(F)>>,
    <<"union-area", F.kind = "points" \/ r.area = Cardinality(Whole(F))>>,
    \* the union over one of the dimensions of the grid: one geometry for each index of the other
    <<"over", r.over = "all" \/ F.kind # "grid" \/ r.way # "union" \/ (\E n \in 1..Len(h) : h[n].op = "clip" \/ h[n].op = "intersects") \/ LET k == IF r.over = "x" THEN r.f.ny ELSE r.f.nx IN
        /\ Len(r.parts) = k
        /\ \A m \in 1..k : Rng(r.parts[m]) = UNION {F.sq[e] : e \in {e \in Alive(F) : (IF r.over = "x" THEN (e - 1) \div r.f.nx ELSE (e - 1) % r.f.nx) = m - 1}}>>,
    <<"variables", Len(r.got) = Len(M)>>,
    <<"dimensions", \A n \in 1..Len(M) : r.got[n].dims = SelectSeq(F.data[n].dims, LAMBDA d : d \notin {"x", "y", "n"}) \o <<"u">>>>,
    <<"means", \A n \in 1..Len(M) : Len(r.got[n].vals) = Len(M[n]) /\ \A p \in 1..Len(M[n]) :
        IF M[n][p] = <<>> THEN TRUE ELSE r.got[n].vals[p] # <<>> /\ r.got[n].vals[p][2] # 0 /\ Same(r.got[n].vals[p], M[n][p])>>,
    \* edges left where nothing overlaps count as lines
    <<"masked", (F.kind # "points" /\ Whole(F) = {}) \/ \A n \in 1..Len(M) : Len(r.got[n].vals) = Len(M[n]) /\ \A p \in 1..Len(M[n]) : (M[n][p] = <<>>) <=> (r.got[n].vals[p] = <<>>)>>,
    <<"rest", r.rest>>,
    <<"source", r.source>>>>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ f = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<i, f, hist>> /\ Report(i, Fail(Trace[i]))
=============================================================================
