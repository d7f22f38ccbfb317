-------------------------------- MODULE Tiling --------------------------------
(* C04.  Deferred and tiled computation.  A destination (the whole output, without data values) is made first and filled  *)
(* tile by tile, each tile computed on its own from the source cut to the tile.  Whatever the tile size and order the     *)
(* destination ends up as the output computed at once.                                                                   *)
EXTENDS Judge, SequencesExt, FiniteSetsExt

CONSTANTS MaxR, MaxC, MaxT

\* src: the source values per cell; dest: the destination; left: tiles still to compute
VARIABLES shape, tdim, src, dest, left, i, done
vars == <<shape, tdim, src, dest, left, i, done>>
----------------------------------------------------------------------------
\* The pieces of 0..n-1 of size t from origin o, as <<start, stop>>, the last one cut
RECURSIVE Pieces(_, _, _)
Pieces(o, n, t) == IF o >= n THEN <<>> ELSE <<<<o, Min2(o + t, n)>>>> \o Pieces(o + t, n, t)
Schema(r, c, t) == {<<a, b>> : a \in Rng(Pieces(0, r, t)), b \in Rng(Pieces(0, c, t))}
CellsIn(p) == {<<y, x>> : y \in p[1][1]..(p[1][2] - 1), x \in p[2][1]..(p[2][2] - 1)}
Grid(r, c) == {<<y, x>> : y \in 0..(r - 1), x \in 0..(c - 1)}
\* what is computed for a cell depends on the cell's values alone
F(v) == IF v = 9 THEN MISS ELSE v * v + 1
Compute(part) == [c \in DOMAIN part |-> F(part[c])]
----------------------------------------------------------------------------
Init == /\ shape \in (1..MaxR) \X (1..MaxC) /\ tdim \in 1..MaxT
        /\ src \in [Grid(shape[1], shape[2]) -> {1, 9}]
        /\ dest = [c \in Grid(shape[1], shape[2]) |-> -1]
        /\ left = Schema(shape[1], shape[2], tdim) /\ i = 0 /\ done = FALSE
Fill(p) == LET part == Compute([c \in CellsIn(p) |-> src[c]]) IN dest' = [c \in DOMAIN dest |-> IF c \in DOMAIN part THEN part[c] ELSE dest[c]]
Next == \E p \in left : Fill(p) /\ left' = left \ {p} /\ UNCHANGED <<shape, tdim, src, i, done>>
CoverOnce(S, r, c) == /\ \A g \in Grid(r, c) : Cardinality({p \in S : g \in CellsIn(p)}) = 1
                      /\ \A p \in S : CellsIn(p) # {} /\ CellsIn(p) \subseteq Grid(r, c)
Laws == /\ CoverOnce(Schema(shape[1], shape[2], tdim), shape[1], shape[2])
        /\ \A p \in left : \A c \in CellsIn(p) : dest[c] = -1                       \* no tile writes into another's cells
        /\ left = {} => dest = Compute(src)
        /\ \A c \in DOMAIN dest : dest[c] # -1 => dest[c] = F(src[c])
----------------------------------------------------------------------------
(* Random requests for the real code.                                                                                    *)
OneIn(q, n) == RandomElement(1..(n + 0 * q)) = 1
CalcOf(q) == <<"mean", "mean", "std", "min", "max", "median", "sum", "freq_perc", "threshold", "between", "duration", "moving_window", "ln", "eval", "eval2", "convolve", "divide", "daily_perc", "none">>[RandomElement(1..(19 + 0 * q))]
Req(q) == LET nr == RandomElement(1..(5 + 0 * q)) nc == RandomElement(1..(6 + 0 * q)) c == CalcOf(q) IN
  TLCEval([nr |-> nr, nc |-> nc, nt |-> RandomElement(3..(8 + 0 * q)), nl |-> RandomElement({0, 0, 1, 2}),
   dims |-> <<"tlyx", "tlyx", "tlyx", "tlyx", "yxtl", "tlxy", "ltyx", "ytlx">>[RandomElement(1..(8 + 0 * q))], curved |-> OneIn(q, 4), bounds |-> OneIn(q, 2),
   mask |-> RandomElement({"none", "none", "some", "cell"}), type |-> RandomElement({"f8", "f4", "i4"}),
   calc |-> c, second |-> IF OneIn(q, 4) THEN RandomElement({"mean", "max"}) ELSE "none", sample |-> OneIn(q, 4),
   grouping |-> RandomElement({<<"month">>, <<"year">>, <<"month", "year">>, <<"all">>, <<"season">>}),
   geom |-> RandomElement({"none", "none", "box", "ell", "offset"}), op |-> <<"intersects", "intersects", "intersects", "clip">>[RandomElement(1..4 + 0 * q)], agg |-> OneIn(q, 2),
   period |-> RandomElement({"none", "none", "none", "range", "region", "level"}), tile |-> RandomElement({1, 2, 2, 3, 4, 5, 7}), opt |-> OneIn(q, 2),
   gmask |-> OneIn(q, 5), wrap |-> OneIn(q, 6), seed |-> RandomElement(1..9999)])
GenInit == src = [nr |-> 0] /\ shape = <<1, 1>> /\ tdim = 1 /\ dest = <<>> /\ left = {} /\ i = 0 /\ done = FALSE
GenNext == i < 1 /\ i' = 1 /\ src' \in {Req(i)} /\ done' = TRUE /\ UNCHANGED <<shape, tdim, dest, left>>
Emit == done => PrintT(<<"CASE", ToJson(src)>>)
----------------------------------------------------------------------------
(* Judging.  A record has the output computed at once, tiled, and the structure written with no data, each a record of    *)
(* variables; a variable's data is a sequence with the text of every value.                                             *)
Structure(v) == [dims |-> v.dims, type |-> v.type, attrs |-> v.attrs]
FailSchema(r) == LET S == {<<p[1], p[2]>> : p \in Rng(r.tiles)} IN
  Broken(<<<<"once", CoverOnce(S, r.nrow, r.ncol) /\ Cardinality(S) = Len(r.tiles)>>,
           <<"tile-size", \A p \in S : p[1][2] - p[1][1] <= r.tdim /\ p[2][2] - p[2][1] <= r.tdim>>>>)
Same(a, b, Op(_)) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : Op(a[n]) = Op(b[n])
FailRun(r) == Broken(<<
    <<"outcome", r.direct.outcome = "done" => (r.tiled.outcome = "done" /\ (r.hasonly => r.only.outcome = "done"))>>,
    <<"refused", r.direct.outcome # "done" => r.tiled.outcome # "done">>,
    <<"environment", r.env>>>>) \cup
  (IF r.direct.outcome # "done" \/ r.tiled.outcome # "done" THEN {} ELSE Broken(<<
    <<"variables", DOMAIN r.tiled.vars = DOMAIN r.direct.vars>>,
    <<"sizes", r.tiled.dims = r.direct.dims>>,
    <<"structure", \A n \in DOMAIN r.tiled.vars \cap DOMAIN r.direct.vars : Structure(r.tiled.vars[n]) = Structure(r.direct.vars[n])>>,
    <<"values", \A n \in DOMAIN r.tiled.vars \cap DOMAIN r.direct.vars : r.tiled.vars[n].vals = r.direct.vars[n].vals>>,
    <<"global", r.tiled.attrs = r.direct.attrs>>>>)) \cup
  (IF r.direct.outcome # "done" \/ ~r.hasonly \/ r.only.outcome # "done" THEN {} ELSE Broken(<<
    <<"only-variables", DOMAIN r.only.vars = DOMAIN r.direct.vars>>,
    <<"only-sizes", r.only.dims = r.direct.dims>>,
    <<"only-structure", \A n \in DOMAIN r.only.vars \cap DOMAIN r.direct.vars : Structure(r.only.vars[n]) = Structure(r.direct.vars[n])>>,
    \* coordinates are there, calculated values are not
    <<"only-values", \A n \in DOMAIN r.only.vars \cap DOMAIN r.direct.vars : n \in Rng(r.calculated) \/ r.only.vars[n].vals = r.direct.vars[n].vals>>,
    <<"only-empty", \A n \in DOMAIN r.only.vars \cap Rng(r.calculated) : \A k \in 1..Len(r.only.vars[n].vals) : r.only.vars[n].vals[k] = "masked">>>>))
Fail(r) == IF r.what = "schema" THEN FailSchema(r) ELSE FailRun(r)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ src = <<>> /\ shape = <<1, 1>> /\ tdim = 1 /\ dest = <<>> /\ left = {}
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<shape, tdim, src, dest, left, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
