--------------------------------- MODULE Wrap ---------------------------------
(* S02.  Longitudes on the two ranges.  Longitudes are whole numbers of 7.5 degrees: a turn is 48, half a turn 24.  A grid has  *)
(* rows of centres (one row standing for all if they are a vector), a polygon is a set of unit cells <<i, j>> of the lattice.   *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxSteps, Starts, MaxN

VARIABLES obj, steps, case, i, done

Turn == 48
Half == 24
W(x) == IF x > Half THEN x - Turn ELSE x
U(x) == IF x < 0 THEN x + Turn ELSE x
WC(c) == IF c >= Half THEN c - Turn ELSE c     \* the cell between c and c + 1
UC(c) == IF c < 0 THEN c + Turn ELSE c
\* what is known of the range of centres and of vertices
StateOf(hi, lo) == IF hi THEN "unwrapped" ELSE IF lo THEN "wrapped" ELSE "unknown"
PtState(S) == StateOf(\E x \in S : x > Half, \E x \in S : x < 0)
CellState(S) == StateOf(\E c \in S : c >= Half, \E c \in S : c < 0)

\* An object: [kind, rows (centres), perm (where each column came from), bounds, alloc (cells made before), cells, pts, masked]
Live(o) == {k \in 1..Len(o.masked) : ~o.masked[k]}
GridState(o) == PtState(UNION {Rng(o.rows[r]) : r \in 1..Len(o.rows)})
PolyCells(o) == UNION {{c[1] : c \in Rng(o.cells[k])} : k \in Live(o)}
PtsOf(o) == UNION {{p[1] : p \in Rng(o.pts[k])} : k \in Live(o)}
State(o) == CASE o.kind \in {"vector", "matrix"} -> GridState(o) [] o.kind = "polygon" -> CellState(PolyCells(o)) [] OTHER -> PtState(PtsOf(o))
Target(op) == IF op = "wrap" THEN "wrapped" ELSE "unwrapped"
MovedCells(o, op) ==
  IF CellState(PolyCells(o)) = Target(op) THEN o.cells
  ELSE [k \in 1..Len(o.cells) |-> IF o.masked[k] THEN o.cells[k] ELSE [n \in 1..Len(o.cells[k]) |-> <<IF op = "wrap" THEN WC(o.cells[k][n][1]) ELSE UC(o.cells[k][n][1]), o.cells[k][n][2]>>]]
Moved(o, op) ==
  IF State(o) = Target(op) THEN o
  ELSE CASE o.kind \in {"vector", "matrix"} -> [o EXCEPT !.rows = [r \in 1..Len(o.rows) |-> [c \in 1..Len(o.rows[r]) |-> IF op = "wrap" THEN W(o.rows[r][c]) ELSE U(o.rows[r][c])]],
                                                         !.bounds = FALSE, !.cells = IF o.alloc THEN MovedCells(o, op) ELSE @]
         [] o.kind = "polygon" -> [o EXCEPT !.cells = MovedCells(o, op)]
         [] OTHER -> [o EXCEPT !.pts = [k \in 1..Len(o.pts) |-> IF o.masked[k] THEN o.pts[k] ELSE [n \in 1..Len(o.pts[k]) |-> <<IF op = "wrap" THEN W(o.pts[k][n][1]) ELSE U(o.pts[k][n][1]), o.pts[k][n][2]>>]]]
\* the columns of a row by increasing longitude
OrderOf(row) == SetToSortSeq(1..Len(row), LAMBDA a, b : row[a] < row[b])
Rows(o) == Len(o.rows)
NCol(o) == Len(o.rows[1])
Row(o, r) == o.rows[IF o.kind = "vector" THEN 1 ELSE r]
Reordered(o) ==
  LET p == [r \in 1..Len(o.perm) |-> OrderOf(Row(o, r))] n == NCol(o) IN
  [o EXCEPT !.rows = [r \in 1..Len(o.rows) |-> [c \in 1..n |-> o.rows[r][p[r][c]]]], !.perm = [r \in 1..Len(o.perm) |-> [c \in 1..n |-> o.perm[r][p[r][c]]]],
            !.cells = IF o.alloc THEN [k \in 1..Len(o.cells) |-> LET r == ((k - 1) \div n) + 1 c == ((k - 1) % n) + 1 IN o.cells[(r - 1) * n + p[r][c]]] ELSE @,
            !.masked = [k \in 1..Len(o.masked) |-> LET r == ((k - 1) \div n) + 1 c == ((k - 1) % n) + 1 IN o.masked[(r - 1) * n + p[r][c]]]]
Refuses(o, op) == op = "reorder" /\ State(o) # "wrapped"
Apply(o, op) == IF Refuses(o, op) THEN o ELSE IF op = "reorder" THEN Reordered(o) ELSE IF op = "apart" THEN o ELSE Moved(o, op)
RECURSIVE Play(_, _)
Play(o, ss) == IF ss = <<>> THEN o ELSE Play(TLCEval(Apply(o, Head(ss))), Tail(ss))

----------------------------------------------------------------------------
\* Model: every row of centres going round, and every pair of points and small polygons
Mk(k, rows, nr, b, al, cells, pts, m) == [kind |-> k, rows |-> rows, perm |-> [r \in 1..nr |-> [c \in 1..(IF rows = <<>> THEN 0 ELSE Len(rows[1])) |-> c]], bounds |-> b, alloc |-> al, cells |-> cells, pts |-> pts, masked |-> m]
\* going round from s by the gaps g, in one of the ranges
Round(s, g, inrange(_)) == [c \in 1..(Len(g) + 1) |-> inrange(s + SumSeq(SubSeq(g, 1, c - 1)))]
ToU(x) == x % Turn
ToW(x) == W(x % Turn)
Init == /\ obj \in {Mk("vector", <<Round(s, g, LAMBDA x : IF w THEN ToW(x) ELSE ToU(x))>>, 1, FALSE, FALSE, <<>>, <<>>, [k \in 1..(Len(g) + 1) |-> FALSE]) : s \in Starts, g \in {<<a, b>> : a \in {2, 11, 24}, b \in {1, 9, 23}} \cup {<<a>> : a \in {3, 24, 40}}, w \in BOOLEAN}
                \cup {Mk("point", <<>>, 0, FALSE, FALSE, <<>>, <<<<<<a, 0>>>>, <<<<b, 0>>>>>>, <<FALSE, FALSE>>) : a \in Starts, b \in Starts}
                \cup {Mk("polygon", <<>>, 0, FALSE, FALSE, <<<<<<a, 0>>, <<a + 1, 0>>>>, <<<<b, 0>>>>>>, <<>>, <<FALSE, FALSE>>) : a \in Starts, b \in Starts}
        /\ steps = <<>> /\ case = <<obj>> /\ i = 0 /\ done = FALSE
Next == Len(steps) < MaxSteps /\ \E op \in {"wrap", "unwrap"} \cup (IF obj.kind = "vector" THEN {"reorder"} ELSE {}) : obj' = Apply(obj, op) /\ steps' = Append(steps, op) /\ UNCHANGED <<case, i, done>>
Lons(o) == CASE o.kind = "vector" -> o.rows[1] [] o.kind = "polygon" -> [k \in 1..2 |-> o.cells[k][1][1]] [] OTHER -> [k \in 1..2 |-> o.pts[k][1][1]]
\* the place on the sphere stays
Placed == LET a == Lons(case[1]) b == Lons(obj) IN \A k \in 1..Len(a) : LET q == IF obj.kind = "vector" THEN obj.perm[1][k] ELSE k IN (b[k] - a[q]) % Turn = 0
Ranged == (steps # <<>> /\ steps[Len(steps)] = "wrap") => \A k \in 1..Len(Lons(obj)) : Lons(obj)[k] <= Half
RangedU == (steps # <<>> /\ steps[Len(steps)] = "unwrap" /\ State(obj) # "wrapped") => (State(obj) = "unknown" \/ \E k \in 1..Len(Lons(obj)) : Lons(obj)[k] + (IF obj.kind = "polygon" THEN 1 ELSE 0) >= Half)
Again == \A op \in {"wrap", "unwrap"} : LET o == Moved(obj, op) IN Moved(o, op) = o
BackAgain == (State(obj) # "wrapped" /\ \A k \in 1..Len(Lons(obj)) : Lons(obj)[k] >= 0 /\ Lons(obj)[k] < Turn - 1) => LET o == Moved(Moved(obj, "wrap"), "unwrap") IN Lons(o) = Lons(obj)
SortedRow == (steps # <<>> /\ steps[Len(steps)] = "reorder" /\ State(obj) = "wrapped") => \A k \in 1..(Len(Lons(obj)) - 1) : Lons(obj)[k] < Lons(obj)[k + 1]

----------------------------------------------------------------------------
\* Generation
R(s) == RandomElement(s)
RECURSIVE Bits(_, _)
Bits(n, p) == IF n = 0 THEN <<>> ELSE <<R(1..p) = 1>> \o Bits(n - 1, p)
RECURSIVE Gaps(_, _)
Gaps(n, left) == IF n = 0 \/ left < 4 THEN <<>> ELSE LET g == TLCEval(2 * R(1..Min2(8, left \div 2 - 1))) IN <<g>> \o Gaps(n - 1, left - g)
\* rows of one grid have the same number of columns
Clean(g, n) == SubSeq(g, 1, n)
RowOf(s, g, w) == [c \in 1..(Len(g) + 1) |-> LET x == s + SumSeq(SubSeq(g, 1, c - 1)) IN IF w THEN ToW(x) ELSE ToU(x)]
RECURSIVE RowsOf(_, _, _)
RowsOf(n, g, w) == IF n = 0 THEN <<>> ELSE TLCEval(<<RowOf(R(0..47), g, w)>>) \o RowsOf(n - 1, g, w)
GridCells(rows, n) == FlattenSeq([r \in 1..n |-> LET row == rows[IF Len(rows) = 1 THEN 1 ELSE r] IN [c \in 1..Len(row) |-> <<<<row[c] - 1, r>>, <<row[c], r>>>>]])
GenGrid(z) == TLCEval(LET g == Gaps(R(0..(MaxN - 1)), 46) w == R({TRUE, FALSE}) kd == R({"vector", "vector", "matrix"}) nr == R(1..3)
                      rows == RowsOf(IF kd = "vector" THEN 1 ELSE nr, g, w) b == kd = "vector" /\ R({TRUE, FALSE}) IN
                      LET al == b /\ R({TRUE, FALSE}) IN
  Mk(kd, rows, nr, b, al, IF al THEN GridCells(rows, nr) ELSE <<>>, <<>>, IF R(1..2) = 1 THEN Bits(nr * Len(rows[1]), 4) ELSE [k \in 1..(nr * Len(rows[1])) |-> FALSE]))
Window == {<<-26, 21>>, <<0, 47>>, <<-2, 45>>, <<2, 49>>, <<-24, 23>>}
Seams == {-1, 0, 23, 24, -24, 47}
RECURSIVE GPts(_, _)
GPts(n, w) == IF n = 0 THEN <<>> ELSE TLCEval(<<<<IF R(1..3) = 1 THEN R({s \in Seams : s >= w[1] /\ s <= w[2]}) ELSE R(w[1]..w[2]), R(-11..11)>>>>) \o GPts(n - 1, w)
\* a blob of cells about a seam, or anywhere
Blob(w) == TLCEval(LET a == IF R(1..3) > 1 THEN R({s \in Seams : s >= w[1] /\ s <= w[2]}) ELSE R(w[1]..w[2]) lo == Max2(w[1], a - R(0..4)) hi == Min2(w[2], a + R(0..4)) j == R(-11..9) h == R(0..2) drop == R(1..4) IN
  LET all == (lo..hi) \X (j..(j + h)) IN LET keep == IF drop = 1 THEN all ELSE IF drop = 2 /\ h = 2 /\ hi - lo > 1 THEN all \ {<<x, j + 1>> : x \in (lo + 1)..(hi - 1)} ELSE {c \in all : R(1..4) > 1} IN SetToSeq(IF keep = {} THEN all ELSE keep))
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE IF \E k \in 2..Len(s) : s[k] = s[1] THEN Distinct(Tail(s)) ELSE <<s[1]>> \o Distinct(Tail(s))
RECURSIVE GCells(_, _)
GCells(n, w) == IF n = 0 THEN <<>> ELSE TLCEval(<<IF R(1..3) = 1 THEN Distinct(Blob(w) \o Blob(w)) ELSE Blob(w)>>) \o GCells(n - 1, w)
RECURSIVE GMany(_, _)
GMany(n, w) == IF n = 0 THEN <<>> ELSE TLCEval(<<GPts(IF R(1..2) = 1 THEN 1 ELSE R(2..3), w)>>) \o GMany(n - 1, w)
GenShapes(z) == TLCEval(LET n == R(1..MaxN) kd == R({"point", "polygon", "polygon"}) w == R(Window) IN
  Mk(kd, <<>>, 0, FALSE, FALSE, IF kd = "polygon" THEN GCells(n, w) ELSE <<>>, IF kd = "point" THEN GMany(n, w) ELSE <<>>, IF R(1..3) = 1 THEN Bits(n, 3) ELSE [k \in 1..n |-> FALSE]))
RECURSIVE GSteps(_, _)
GSteps(n, g) == IF n = 0 THEN <<>> ELSE TLCEval(<<R(IF g THEN {"wrap", "unwrap", "reorder", "apart"} ELSE {"wrap", "unwrap", "apart"})>>) \o GSteps(n - 1, g)
GenInit == obj = <<>> /\ steps = <<>> /\ case = <<>> /\ i = 0 /\ done = FALSE
Gen(o, g) == [obj |-> o, steps |-> GSteps(R(1..MaxSteps), g), host |-> R({"field", "alone"}), type |-> R({"f8", "f8", "f4", "i4"})]
GenNext == /\ i < 2 /\ \E g \in {R({TRUE, FALSE})} : \E o \in {IF g THEN GenGrid(i) ELSE GenShapes(i)} : \E c \in {Gen(o, g)} : case' = c
           /\ i' = i + 1 /\ UNCHANGED <<obj, steps, done>>
Emit == case = <<>> \/ PrintT(<<"CASE", ToJson(case)>>)

----------------------------------------------------------------------------
\* the record: state and refusal at every step, then what is there at the end
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ case = <<>> /\ obj = <<>> /\ steps = <<>>
RECURSIVE StatesOf(_, _)
StatesOf(o, ss) == <<State(o)>> \o (IF ss = <<>> THEN <<>> ELSE StatesOf(TLCEval(Apply(o, Head(ss))), Tail(ss)))
RECURSIVE RefusedOf(_, _)
RefusedOf(o, ss) == IF ss = <<>> THEN <<>> ELSE <<Refuses(o, Head(ss))>> \o RefusedOf(TLCEval(Apply(o, Head(ss))), Tail(ss))
IsGrid(o) == o.kind \in {"vector", "matrix"}
At(s, r, c) == s[r][c]
Fail(r) ==
  LET o == r.obj e == TLCEval(Play(o, r.steps)) n == IF IsGrid(o) THEN NCol(o) ELSE 0 nr == Len(o.perm) IN
  Broken(<<
    <<"states", r.states = StatesOf(o, r.steps)>>,
    <<"refused", r.refused = RefusedOf(o, r.steps)>>,
    <<"centres", IsGrid(o) => r.rows = e.rows>>,
    <<"latitudes", IsGrid(o) => r.lat>>,
    <<"bounds", IsGrid(o) => r.bounds = e.bounds>>,
    <<"cells", (o.kind = "polygon" \/ o.alloc) => Len(r.cells) = Len(e.cells) /\ \A k \in 1..Len(e.cells) : e.masked[k] \/ {<<c[1], c[2]>> : c \in Rng(r.cells[k])} = Rng(e.cells[k])>>,
    <<"areas", (o.kind = "polygon" \/ o.alloc) => \A k \in 1..Min2(Len(e.cells), Len(r.areas)) : e.masked[k] \/ r.areas[k] = Cardinality(Rng(e.cells[k]))>>,
    <<"points", o.kind = "point" => Len(r.pts) = Len(e.pts) /\ \A k \in 1..Len(e.pts) : e.masked[k] \/ r.pts[k] = e.pts[k]>>,
    <<"mask", r.masked = e.masked>>,
    \* data of the original cell <<row, column>> is 10 row + column, in every arrangement; a vector of columns alone goes along
    <<"data", \A k \in 1..Len(r.data) : LET v == r.data[k] IN
                IF v.rows THEN v.vals = [q \in 1..nr |-> [c \in 1..n |-> IF v.masked /\ e.masked[(q - 1) * n + c] THEN MISS ELSE 10 * q + e.perm[q][c]]]
                ELSE o.kind = "vector" => v.vals = <<[c \in 1..n |-> e.perm[1][c]]>>>>,
    <<"others-unchanged", r.apart>>>>)
\* several processes with a piece each find the state of the whole
PInit == JInit
PNext == ~done /\ done' = TRUE /\ UNCHANGED <<case, obj, steps, i>> /\ LET r == Trace[i] ss == {State(r.objs[k]) : k \in 1..Len(r.objs)} IN
  Report(i, Broken(<<<<"state-of-the-whole", Len(r.ranks) = Len(r.objs) /\ \A k \in 1..Len(r.ranks) : r.ranks[k] = StateOf("unwrapped" \in ss, "wrapped" \in ss)>>>>))
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<case, obj, steps, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
