------------------------------- MODULE Select -------------------------------
(* T02.  Steps along time and levels along the vertical, as cells [v, lo, hi] (hours after a reference date; level units), *)
(* narrowed by ranges, regions of months and years, and functions of the date.  Also the regions made from seasons.       *)
EXTENDS Judge, TimeCells

CONSTANTS MaxOps, Cals, Refs, MaxT, MaxL, Lens, Gaps, LevLens

VARIABLES fld, hist, i, done

\* fld: [cal, ref, time, tb, lev, lb, flip, tidx, lidx]: all cells, whether they have bounds, and the positions remaining
\* positions (among those remaining) an operation keeps
Along(op) == IF op.op = "lrange" THEN "lev" ELSE "time"
Kept(f, op) ==
  LET ts == Cells(f.time, f.tidx) ls == Cells(f.lev, f.lidx) IN
  CASE op.op = "trange" -> SelectSeq([k \in 1..Len(ts) |-> k], LAMBDA k : InRange(ts, k, op.a, op.b, FALSE, f.tb))
    [] op.op = "lrange" -> SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : InRange(ls, k, op.a, op.b, op.closed, f.lb /\ op.useb))
    [] op.op = "tregion" -> SelectSeq([k \in 1..Len(ts) |-> k], LAMBDA k : InRegion(f, ts[k], f.tb, op.months, op.years))
    [] op.op = "tfunc" -> SelectSeq([k \in 1..Len(ts) |-> k], LAMBDA k : DateH(f, IF f.tb THEN ts[k].lo ELSE ts[k].v)[3] \in op.days)
Step(f, op) ==
  LET k == Kept(f, op) IN
  IF k = <<>> THEN f
  ELSE IF Along(op) = "lev" THEN [f EXCEPT !.lidx = Cells(f.lidx, k)] ELSE [f EXCEPT !.tidx = Cells(f.tidx, k)]

----------------------------------------------------------------------------
Some(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
SeqN(n, rnd, S) == IF rnd THEN {[k \in 1..n |-> RandomElement(S)]} ELSE [1..n -> S]
Build(len, gap, s) == [k \in 1..Len(len) |-> LET lo == s + SumSeq(SubSeq(len, 1, k - 1)) + SumSeq(SubSeq(gap, 1, k - 1))
                                             IN [lo |-> lo, hi |-> lo + len[k], v |-> lo + len[k] \div 2]]
Iota(n) == [k \in 1..n |-> k]
Starts(rnd) ==
  UNION {UNION {{[cal |-> c, ref |-> r, tb |-> tb, lb |-> lb, flip |-> fl, tidx |-> Iota(n), lidx |-> Iota(m),
           time |-> Build(tl, IF tight THEN [k \in 1..n |-> 0] ELSE tg, 0),
           lev |-> LET s == Build(ll, [k \in 1..m |-> lg], 2) IN IF down THEN Reverse(s) ELSE s]
            : c \in Some(Cals, rnd), r \in Some(Refs, rnd), tb \in Some(BOOLEAN, rnd), lb \in Some(BOOLEAN, rnd), fl \in Some(BOOLEAN, rnd), down \in Some(BOOLEAN, rnd),
              tight \in Some(BOOLEAN, rnd), tl \in (IF rnd THEN {RandomElement({[k \in 1..n |-> RandomElement(Lens)], LET x == RandomElement(Lens) IN [k \in 1..n |-> x]})} ELSE SeqN(n, rnd, Lens)),
              tg \in SeqN(n, rnd, Gaps), ll \in SeqN(m, rnd, LevLens), lg \in Some({0, 2}, rnd)}
            : m \in Some(1..MaxL, rnd)} : n \in Some(1..MaxT, rnd)}
Marks(cells, useb, near) == UNION {{c.v, c.lo, c.hi} : c \in Rng(cells)} \cup (IF near THEN UNION {{c.lo - 1, c.lo + 1, c.hi + 1, c.hi - 1} : c \in Rng(cells)} ELSE {})
Base(k) == [op |-> k, a |-> 0, b |-> 0, closed |-> FALSE, useb |-> TRUE, months |-> {}, years |-> {}, days |-> {}]
Ops(f, kind, rnd) ==
  LET ts == Cells(f.time, f.tidx) ls == Cells(f.lev, f.lidx)
      ys == UNION {{DateH(f, c.lo)[1], DateH(f, c.hi)[1]} : c \in Rng(ts)}
      ms == UNION {{DateH(f, c.lo)[2], DateH(f, c.hi)[2], DateH(f, c.v)[2]} : c \in Rng(ts)} \cup {6}
      ds == {DateH(f, c.lo)[3] : c \in Rng(ts)} \cup {DateH(f, c.v)[3] : c \in Rng(ts)} IN
  CASE kind = "trange" -> {[Base(kind) EXCEPT !.a = Min2(x, y), !.b = Max2(x, y)] : x \in Some(Marks(ts, f.tb, TRUE), rnd), y \in Some(Marks(ts, f.tb, TRUE), rnd)}
    [] kind = "lrange" -> {[Base(kind) EXCEPT !.a = Min2(x, y), !.b = Max2(x, y), !.closed = c, !.useb = u]
                             : x \in Some(Marks(ls, f.lb, TRUE), rnd), y \in Some(Marks(ls, f.lb, TRUE), rnd), c \in Some(BOOLEAN, rnd), u \in Some(BOOLEAN, rnd)}
    [] kind = "tregion" -> {o \in {[Base(kind) EXCEPT !.months = x, !.years = y] : x \in Some(IF rnd THEN {RandomElement(SUBSET ms), RandomElement(SUBSET (1..12)), {}} ELSE SUBSET ms, rnd),
                                                                                   y \in Some(SUBSET (ys \cup {1999}), rnd)} : o.months # {} \/ o.years # {}}
    [] kind = "tfunc" -> {[Base(kind) EXCEPT !.days = x] : x \in Some(SUBSET ds, rnd)}
Kinds == {"trange", "lrange", "tregion", "tfunc"}
Init == \E s \in Starts(FALSE) : fld = s /\ hist = <<>> /\ i = 0 /\ done = FALSE
Next == /\ Len(hist) < MaxOps
        /\ \E kind \in Kinds : \E op \in Ops(fld, kind, FALSE) : fld' = Step(fld, op) /\ hist' = Append(hist, op)
        /\ UNCHANGED <<i, done>>
View == <<fld, Len(hist)>>
Ordered(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
InOrder == Ordered(fld.tidx) /\ Ordered(fld.lidx) /\ fld.tidx # <<>> /\ fld.lidx # <<>>
\* what a kept cell and a dropped cell look like, whatever the form of the request
Sound == \A kind \in {"trange", "lrange"} : \A op \in Ops(fld, kind, FALSE) :
   LET cells == IF kind = "lrange" THEN Cells(fld.lev, fld.lidx) ELSE Cells(fld.time, fld.tidx)
       useb == IF kind = "lrange" THEN fld.lb /\ op.useb ELSE fld.tb
       kept == Rng(Kept(fld, op)) IN
   \A k \in 1..Len(cells) : LET c == cells[k] IN
     /\ (useb /\ k \in kept) => c.hi >= op.a /\ c.lo <= op.b
     /\ (useb /\ c.hi > op.a /\ c.lo < op.b) => k \in kept
     /\ (~useb /\ k \in kept) => op.a <= c.v /\ c.v <= op.b
     /\ (~useb /\ op.a < c.v /\ c.v < op.b) => k \in kept
\* consecutive regions of months share out the steps; all months keep everything
Shares == LET all == {k \in 1..12 : TRUE} IN
   /\ Len(Kept(fld, [Base("tregion") EXCEPT !.months = all])) = Len(fld.tidx)
   /\ ~fld.tb => SumSeq([m \in 1..12 |-> Len(Kept(fld, [Base("tregion") EXCEPT !.months = {m}]))]) = Len(fld.tidx)
   /\ \A c \in Rng(fld.time) : MonthsOf(fld, c, fld.tb) # {} /\ YearsOf(fld, c, fld.tb) # {} /\ DateH(fld, IF fld.tb THEN c.lo ELSE c.v)[2] \in MonthsOf(fld, c, fld.tb)

Nil == [cal |-> "", ref |-> <<>>, time |-> <<>>, tb |-> FALSE, lev |-> <<>>, lb |-> FALSE, flip |-> FALSE, tidx |-> <<>>, lidx |-> <<>>]
GenInit == fld = Nil /\ hist = <<>> /\ i = 0 /\ done = FALSE
GenNext == IF hist = <<>> THEN \E s \in Starts(TRUE) : fld' = s /\ hist' = <<s>> /\ UNCHANGED <<i, done>>
           ELSE IF Len(hist) > MaxOps THEN ~done /\ done' = TRUE /\ UNCHANGED <<fld, hist, i>>
           ELSE \E kind \in {RandomElement(Kinds)} : \E op \in (IF i > 3 * MaxOps THEN {[Base("tfunc") EXCEPT !.days = {}]} ELSE Ops(fld, kind, TRUE)) :
                  fld' = Step(fld, op) /\ hist' = Append(hist, op) /\ UNCHANGED done /\ i' = i + 1
Dates(f) == [k \in 1..Len(f.time) |-> DateH(f, f.time[k].v)]
RECURSIVE Told(_, _)
Told(f, ops) == IF ops = <<>> THEN <<>> ELSE LET op == Head(ops) IN
  <<op @@ [da |-> IF op.op = "trange" THEN DateH(f, op.a) ELSE <<>>, db |-> IF op.op = "trange" THEN DateH(f, op.b) ELSE <<>>]>> \o Told(f, Tail(ops))
Emit == IF done THEN PrintT(<<"CASE", ToJson([fld |-> hist[1], ops |-> Told(hist[1], Tail(hist))])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging
Shown(f) == LET ts == Cells(f.time, f.tidx) ls == Cells(f.lev, f.lidx) IN
  [time |-> [k \in 1..Len(ts) |-> ts[k].v], tb |-> IF f.tb THEN [k \in 1..Len(ts) |-> <<ts[k].lo, ts[k].hi>>] ELSE <<>>,
   lev |-> [k \in 1..Len(ls) |-> ls[k].v], lb |-> IF f.lb THEN [k \in 1..Len(ls) |-> IF f.flip THEN <<ls[k].hi, ls[k].lo>> ELSE <<ls[k].lo, ls[k].hi>>] ELSE <<>>,
   data |-> [k \in 1..Len(ts) |-> [m \in 1..Len(ls) |-> 100 * f.tidx[k] + f.lidx[m]]]]
SetOp(op) == [op EXCEPT !.months = Rng(op.months), !.years = Rng(op.years), !.days = Rng(op.days)]
RECURSIVE Walk(_, _, _, _)
Walk(f, ops, obs, k) ==
  IF k > Len(ops) THEN {}
  ELSE LET op == SetOp(ops[k]) o == obs[k] kept == Kept(f, op) g == TLCEval(Step(f, op)) IN
    (IF kept = <<>> THEN (IF o.refused = "EmptySubsetError" THEN {} ELSE {<<op.op, "not-refused", k>>})
     ELSE IF o.refused # "" THEN {<<op.op, "refused", k, o.refused>>}
     ELSE {<<op.op, c, k>> : c \in Broken(<<
        <<"indices", o.idx = <<>> \/ o.idx = kept>>,
        <<"time", o.seen.time = Shown(g).time>>, <<"time-bounds", o.seen.tb = Shown(g).tb>>,
        <<"level", o.seen.lev = Shown(g).lev>>, <<"level-bounds", o.seen.lb = Shown(g).lb>>,
        <<"data", o.seen.data = Shown(g).data>>, <<"source", o.source = Shown(f)>> >>)})
    \cup Walk(g, ops, obs, k + 1)
Hist(r) == IF ~r.ok THEN {<<"failed", r.err>>} ELSE IF Len(r.obs) # Len(r.ops) THEN {"steps"} ELSE Walk(r.fld, r.ops, r.obs, 1)
AsSets(regs) == [k \in 1..Len(regs) |-> [j \in 1..Len(regs[k]) |-> [year |-> Rng(regs[k][j].year), month |-> Rng(regs[k][j].month)]]]
Seasons(r) ==
  LET ym == Rng(r.ym) IN
  IF r.strict /\ Refuses(r.seasons, ym) THEN (IF r.refused = "IncompleteSeasonError" THEN {} ELSE {<<"incomplete-not-refused", r.refused>>})
  ELSE IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE Broken(<<<<"regions", AsSets(r.regions) = Regions(r.seasons, ym)>>,
                <<"sorted", r.sorted = SortSeasons(r.seasons, r.method)>>,
                <<"kept-arguments", r.after = r.seasons>> >>)
Fail(r) == CASE r.kind = "history" -> Hist(r) [] r.kind = "seasons" -> Seasons(r) [] OTHER -> {"unknown"}

JInit == i \in 1..Len(Trace) /\ done = FALSE /\ fld = Nil /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<fld, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
