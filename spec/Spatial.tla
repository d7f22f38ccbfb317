------------------------------ MODULE Spatial ------------------------------
(* S01.  Spatial subsets.  Shapes are unions of convex pieces (points, segments, convex polygons with vertices on the integer   *)
(* lattice); whether two pieces meet, or have a common interior, is decided exactly by their projections on the directions       *)
(* that can separate them.                                                                                                        *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxN, Steps, Lo, Sz, Uz, Vz

VARIABLES grid, sel, opt, todo, kept, cand, step, i, done

\* a piece is a sequence of vertices <<x, y>>, in order
Edges(p) == IF Len(p) = 1 THEN {} ELSE {<<p[(k % Len(p)) + 1][1] - p[k][1], p[(k % Len(p)) + 1][2] - p[k][2]>> : k \in 1..Len(p)}
Axes(a, b) == LET es == Edges(a) \cup Edges(b) IN es \cup {<<-e[2], e[1]>> : e \in es} \cup {<<1, 0>>, <<0, 1>>}
Dot(d, v) == d[1] * v[1] + d[2] * v[2]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Proj(d, p) == LET s == {Dot(d, p[k]) : k \in 1..Len(p)} IN <<SetMin(s), SetMax(s)>>
Meet1(p, q) == p[1] <= q[2] /\ q[1] <= p[2]
\* do the relative interiors of two intervals meet
Overlap1(p, q) == CASE p[1] = p[2] /\ q[1] = q[2] -> p[1] = q[1]
                    [] p[1] = p[2] -> q[1] < p[1] /\ p[1] < q[2]
                    [] q[1] = q[2] -> p[1] < q[1] /\ q[1] < p[2]
                    [] OTHER -> p[1] < q[2] /\ q[1] < p[2]
Meets(a, b) == \A d \in Axes(a, b) : Meet1(Proj(d, a), Proj(d, b))
Overlaps(a, b) == \A d \in Axes(a, b) : Overlap1(Proj(d, a), Proj(d, b))
Box(p) == <<Proj(<<1, 0>>, p), Proj(<<0, 1>>, p)>>
MeetsAny(c, g) == \E k \in 1..Len(g) : Meets(c, g[k])
OverlapsAny(c, g) == \E k \in 1..Len(g) : Overlaps(c, g[k])
\* the extent of a whole shape, and of an intersection of two boxes
Whole(g) == FlattenSeq(g)
AreaBox(a, b) == LET w == Min2(Box(a)[1][2], Box(b)[1][2]) - Max2(Box(a)[1][1], Box(b)[1][1])
                     h == Min2(Box(a)[2][2], Box(b)[2][2]) - Max2(Box(a)[2][1], Box(b)[2][1]) IN IF w > 0 /\ h > 0 THEN w * h ELSE 0
IsBox(p) == Len(p) = 4 /\ Cardinality({p[k][1] : k \in 1..4}) = 2 /\ Cardinality({p[k][2] : k \in 1..4}) = 2
SumOver(S, op(_)) == LET RECURSIVE s(_) s(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN op(x) + s(T \ {x}) IN s(S)

\* Boxes alone (op "bbox") are looked at by the points standing for the cells, masked or not; masked cells stay masked.
\* the cell (polygon or point) which stands for position rc of the grid under the options
Shape(g, o, rc) == IF g.abs = "polygon" /\ o.ub # "F" /\ o.op # "bbox" THEN g.cell[rc[1]][rc[2]] ELSE <<g.pt[rc[1]][rc[2]]>>
Poly(g, o) == g.abs = "polygon" /\ o.ub # "F"
KeepTouch(g, o) == CASE o.op = "bbox" -> TRUE
                     [] o.kt = "T" -> TRUE
                     [] o.kt = "F" -> FALSE
                     [] OTHER -> g.kind \notin {"geom1", "geom2"} /\ ~Poly(g, o)
Sel(s, o) == IF o.op = "bbox" THEN LET b == Box(Whole(s.pieces)) IN <<<<<<b[1][1], b[2][1]>>, <<b[1][2], b[2][1]>>, <<b[1][2], b[2][2]>>, <<b[1][1], b[2][2]>>>>>> ELSE s.pieces
\* several boxes for several parts, when only boxes are looked at
SelBoxes(s, o) == IF o.op = "bbox" THEN FlattenSeq([k \in 1..Len(s.pieces) |-> Sel([pieces |-> <<s.pieces[k]>>], o)]) ELSE s.pieces
Keeps(g, s, o, rc) ==
  (o.op = "bbox" \/ ~g.mask[rc[1]][rc[2]]) /\ LET c == Shape(g, o, rc) q == IF s.parts THEN SelBoxes(s, o) ELSE Sel(s, o) IN MeetsAny(c, q) /\ (KeepTouch(g, o) \/ OverlapsAny(c, q))
Cells(g) == (1..g.rows) \X (1..g.cols)
Kept(g, s, o) == {rc \in Cells(g) : Keeps(g, s, o, rc)}
Hull(K) == <<SetMin({k[1] : k \in K}), SetMax({k[1] : k \in K}), SetMin({k[2] : k \in K}), SetMax({k[2] : k \in K})>>

----------------------------------------------------------------------------
\* grids and shapes
Rand(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
Cum(lo, d) == [k \in 1..(Len(d) + 1) |-> lo + SumSeq(SubSeq(d, 1, k - 1))]
SeqsOf(n, rnd, S) == IF rnd THEN {TLCEval([k \in 1..n |-> RandomElement(S)])} ELSE [1..n -> S]
Node(X, Y, s, t, r, c) == <<X[c] + s * (r - 1), Y[r] + t * (c - 1)>>
MkGrid(kd, ab, X, Y, s, t, m, desc) ==
  LET R == Len(Y) - 1 C == Len(X) - 1
      row(r) == IF desc THEN R + 1 - r ELSE r
      quad(r, c) == <<Node(X, Y, s, t, row(r), c), Node(X, Y, s, t, row(r), c + 1), Node(X, Y, s, t, row(r) + 1, c + 1), Node(X, Y, s, t, row(r) + 1, c)>> IN
  [kind |-> kd, abs |-> ab, rows |-> R, cols |-> C, mask |-> m, desc |-> desc,
   cell |-> [r \in 1..R |-> [c \in 1..C |-> quad(r, c)]],
   pt |-> [r \in 1..R |-> [c \in 1..C |-> LET q == quad(r, c) IN <<(q[1][1] + q[3][1]) \div 2, (q[1][2] + q[3][2]) \div 2>>]]]
Masks(R, C, rnd) == IF rnd THEN {TLCEval(LET p == RandomElement({0, 0, 1, 3}) IN [r \in 1..R |-> [c \in 1..C |-> RandomElement(1..10) <= p]])}
                    ELSE {[r \in 1..R |-> [c \in 1..C |-> FALSE]], [r \in 1..R |-> [c \in 1..C |-> (r + c) % 2 = 0]]}
Grids(rnd) == UNION {{MkGrid(kd, ab, Cum(lo, dx), Cum(l2, dy), IF kd \in {"vector"} THEN 0 ELSE s, IF kd = "vector" THEN 0 ELSE t, m, desc) :
     dx \in SeqsOf(C, rnd, Steps), dy \in SeqsOf(R, rnd, Steps), lo \in Rand(Lo, rnd), l2 \in Rand(Lo, rnd), s \in Rand({0, 2}, rnd), t \in Rand({0, -2}, rnd), m \in Masks(R, C, rnd), desc \in Rand(BOOLEAN, rnd)}
     : R \in Rand(1..MaxN, rnd), C \in Rand(1..MaxN, rnd), kd \in (IF rnd THEN {RandomElement({"vector", "curv", "geom1", "geom2"})} ELSE {"vector", "curv"}), ab \in (IF rnd THEN {RandomElement({"polygon", "polygon", "point"})} ELSE {"polygon"})}
Rect(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>>
Span(g) == LET b == Box(FlattenSeq([r \in 1..g.rows |-> Whole(g.cell[r])])) IN b
\* the boxes, ells, rings, scattered boxes, triangles, diamonds, broken lines and points of the selections; part of them drawn around a corner or centre of a cell
Anchor(g, rnd) == IF rnd /\ RandomElement(1..2) = 1 THEN LET r == RandomElement(1..g.rows) c == RandomElement(1..g.cols) IN {RandomElement({g.pt[r][c], g.cell[r][c][1], g.cell[r][c][2], g.cell[r][c][3], g.cell[r][c][4]})}
                  ELSE IF ~rnd THEN {g.pt[1][1], g.cell[1][1][3], <<-1, -1>>, <<0, 1>>, <<6, 3>>}
                  ELSE LET b == Span(g) IN Rand((b[1][1] - 2)..(b[1][2] + 1), rnd) \X Rand((b[2][1] - 2)..(b[2][2] + 1), rnd)
Sizes(rnd) == Rand(Sz, rnd)
Shapes(g, rnd) ==
  LET tp == IF rnd THEN {RandomElement({"box", "box", "ell", "ring", "boxes", "tri", "tris", "diamond", "line", "path", "point", "points"})} ELSE {"box", "tri", "line", "point"} IN
  UNION {LET x == a[1] y == a[2] IN
    CASE t = "box" -> {[type |-> "polys", parts |-> FALSE, pieces |-> <<Rect(x, y, w, h)>>]}
      [] t = "ell" -> {[type |-> "polys", parts |-> FALSE, pieces |-> <<Rect(x, y, w, h), Rect(x + w, y, u, (h + 1) \div 2)>>]}
      [] t = "ring" -> {[type |-> "polys", parts |-> FALSE, pieces |-> <<Rect(x, y, w + u + v, v), Rect(x, y + v, v, h), Rect(x + u + v, y + v, w, h), Rect(x, y + v + h, w + u + v, u)>>]}
      [] t = "boxes" -> {[type |-> "polys", parts |-> TRUE, pieces |-> <<Rect(x, y, w, h), Rect(x + w + u, y + v - 3, w, h)>>]}
      [] t = "tri" -> {[type |-> "polys", parts |-> FALSE, pieces |-> <<<<<<x, y>>, <<x + w, y + u - 4>>, <<x + v - 4, y + h + 4>>>>>>]}
      [] t = "tris" -> {[type |-> "polys", parts |-> TRUE, pieces |-> <<<<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>>>, <<<<x - 1, y + u>>, <<x - 1, y + u + h>>, <<x - 1 - w, y + u>>>>>>]}
      [] t = "diamond" -> {[type |-> "polys", parts |-> FALSE, pieces |-> <<<<<<x - w, y>>, <<x, y - h>>, <<x + w, y>>, <<x, y + h>>>>>>]}
      [] t = "line" -> {[type |-> "lines", parts |-> FALSE, pieces |-> <<<<<<x, y>>, <<x + w, y + u - v>>>>>>]}
      [] t = "path" -> {[type |-> "lines", parts |-> FALSE, pieces |-> <<<<<<x, y>>, <<x + w, y>>>>, <<<<x + w, y>>, <<x + w, y + h>>>>, <<<<x + w, y + h>>, <<x + w + u, y + h + v>>>>>>]}
      [] t = "point" -> {[type |-> "points", parts |-> FALSE, pieces |-> <<<<<<x, y>>>>>>]}
      [] t = "points" -> {[type |-> "points", parts |-> TRUE, pieces |-> <<<<<<x, y>>>>, <<<<x + w, y + h>>>>>>]}
    : t \in tp, a \in Anchor(g, rnd), w \in Sizes(rnd), h \in Sizes(rnd), u \in Rand(Uz, rnd), v \in Rand(Vz, rnd)}
Opts(g, s, rnd) == LET geo == g.kind \in {"geom1", "geom2"}
                       all == [op : IF geo THEN {"intersects", "clip"} ELSE {"intersects", "clip", "bbox"}, kt : {"auto", "T", "F"}, ub : IF geo \/ g.abs = "point" THEN {"auto"} ELSE {"auto", "F"}, index : BOOLEAN, level : {"object", "field"}]
                       \* the boundary of a shape of several pieces is not told from their seams for points; bounds are an option of the grid's method
                       ok(o) == /\ (~(Poly(g, o)) /\ Len(s.pieces) > 1 /\ ~s.parts) => KeepTouch(g, o)
                                /\ (o.op = "clip" => o.kt = "auto") /\ (o.op = "bbox" => o.kt = "auto" /\ o.ub = "auto") /\ (o.level = "field" => o.ub = "auto") IN
                   Rand({o \in all : ok(o)}, rnd)

\* cells are looked at one by one, those outside the box around the selection only by their boxes
NoGrid == [kind |-> "", rows |-> 0, cols |-> 0]
Init == /\ \E g \in Grids(FALSE) : \E s \in Shapes(g, FALSE) : \E o \in {[op |-> "intersects", kt |-> k, ub |-> "auto", index |-> TRUE, level |-> "object"] : k \in {"auto"}} : grid = g /\ sel = s /\ opt = o
        /\ todo = Cells(grid) /\ kept = {} /\ cand = {} /\ step = 0 /\ i = 0 /\ done = FALSE
\* first the search structure proposes, then the exact test decides
Next == /\ todo # {}
        /\ LET rc == CHOOSE x \in todo : TRUE c == Shape(grid, opt, rc) b == Box(Whole(sel.pieces)) IN
           /\ todo' = todo \ {rc}
           /\ cand' = IF Meet1(Box(c)[1], b[1]) /\ Meet1(Box(c)[2], b[2]) THEN cand \cup {rc} ELSE cand
           /\ kept' = IF rc \in cand' /\ Keeps(grid, sel, opt, rc) THEN kept \cup {rc} ELSE kept
        /\ UNCHANGED <<grid, sel, opt, step, i, done>>
IndexSound == todo = {} => kept = Kept(grid, sel, opt)
\* a common lattice point is a meeting; a common interior is a meeting; both are symmetric
Lattice(p) == {v \in (Box(p)[1][1]..Box(p)[1][2]) \X (Box(p)[2][1]..Box(p)[2][2]) : Meets(<<v>>, p)}
Exact == todo = Cells(grid) => \A rc \in Cells(grid) : \A k \in 1..Len(sel.pieces) : LET c == grid.cell[rc[1]][rc[2]] p == sel.pieces[k] IN
   /\ Meets(c, p) = Meets(p, c) /\ Overlaps(c, p) = Overlaps(p, c)
   /\ (Lattice(c) \cap Lattice(p) # {}) => Meets(c, p)
   /\ Overlaps(c, p) => Meets(c, p)
   /\ (IsBox(c) /\ IsBox(p)) => ((AreaBox(c, p) > 0) = Overlaps(c, p))

GenInit == grid = NoGrid /\ sel = 0 /\ opt = 0 /\ todo = {} /\ kept = {} /\ cand = {} /\ step = 0 /\ i = 0 /\ done = FALSE
GenNext == CASE step = 0 -> /\ \E g \in Grids(TRUE) : grid' = (IF g.kind = "geom1" THEN [g EXCEPT !.rows = 1, !.cell = <<FlattenSeq(g.cell)>>, !.pt = <<FlattenSeq(g.pt)>>, !.mask = <<FlattenSeq(g.mask)>>, !.cols = g.rows * g.cols] ELSE g)
                            /\ step' = 1 /\ UNCHANGED <<sel, opt, todo, kept, cand, i, done>>
             [] step = 1 -> /\ \E s \in Shapes(grid, TRUE) : \E o \in Opts(grid, s, TRUE) : sel' = s /\ opt' = o
                            /\ step' = 2 /\ UNCHANGED <<grid, todo, kept, cand, i, done>>
             [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<grid, sel, opt, todo, kept, cand, step, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([grid |-> grid, sel |-> sel, opt |-> opt])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging: r.empty when the empty extent error was raised; otherwise the positions r.rows, r.cols taken (the slice), and for every place of the result
\* its mask, identifier (row and column of the source), coordinates, data and their masks
Fail(r) ==
  LET g == r.grid o == r.opt s == r.sel all0 == Kept(g, s, o) K == {rc \in all0 : ~g.mask[rc[1]][rc[2]]} IN
  IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE IF all0 = {} \/ r.empty THEN (IF (all0 = {}) = r.empty THEN {} ELSE {<<"empty", r.empty, all0>>})
  ELSE LET h == Hull(all0) R == h[2] - h[1] + 1 C == h[4] - h[3] + 1
           at(a, b) == <<h[1] + a - 1, h[3] + b - 1>> all == (1..R) \X (1..C) IN
  IF r.shape # <<R, C>> THEN {<<"extent", h, r.shape>>}
  ELSE Broken(<<
    <<"slice", r.slice = <<>> \/ r.slice = <<h[1] - 1, h[2], h[3] - 1, h[4]>>>>,
    <<"kept", \A p \in all : r.mask[p[1]][p[2]] = ~(at(p[1], p[2]) \in K)>>,
    <<"coordinates", r.pt = <<>> \/ \A p \in all : LET q == at(p[1], p[2]) IN q \in K => r.pt[p[1]][p[2]] = g.pt[q[1]][q[2]]>>,
    <<"bounds", r.cell = <<>> \/ \A p \in all : LET q == at(p[1], p[2]) IN q \in K => Rng(r.cell[p[1]][p[2]]) = Rng(g.cell[q[1]][q[2]])>>,
    <<"data", \A n \in 1..Len(r.data) : \A p \in all : LET q == at(p[1], p[2]) IN
         r.data[n][p[1]][p[2]] \in IF q \in K THEN {r.src[n][q[1]][q[2]]} ELSE {MISS} \cup (IF o.op = "bbox" /\ q \in all0 THEN {r.src[n][q[1]][q[2]]} ELSE {})>>,
    <<"clipped", o.op # "clip" \/ \A p \in all : LET q == at(p[1], p[2]) c == Shape(g, o, q) IN
         q \in K => /\ r.area[p[1]][p[2]] # -1
                    /\ (Poly(g, o) /\ s.type = "polys" /\ IsBox(c) /\ \A k \in 1..Len(s.pieces) : IsBox(s.pieces[k]) /\ (s.parts => ~Overlaps(s.pieces[1], s.pieces[2]))) =>
                          r.area[p[1]][p[2]] = SumOver(1..Len(s.pieces), LAMBDA k : AreaBox(c, s.pieces[k]))
                    /\ s.type # "polys" \/ ~Poly(g, o) \/ r.area[p[1]][p[2]] # 0 >>,
    <<"source", r.unchanged>> >>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ grid = NoGrid /\ sel = 0 /\ opt = 0 /\ todo = {} /\ kept = {} /\ cand = {} /\ step = 0
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<grid, sel, opt, todo, kept, cand, step, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
