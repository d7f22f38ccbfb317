------------------------------ MODULE Deferred ------------------------------
(* D02.  Collections opened from a file.  A variable is unread, holding only which part of the file it stands for, until its  *)
(* data is asked for; the data then is its own.  Slices and copies taken before give what slices of the data would give.      *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxOps, MaxHandles, Kinds, Sizes, OpNames

VARIABLES kind, heap, ver, ops, i, done

----------------------------------------------------------------------------
\* what the files hold: a variable is [name, dims, code, holes, moves]; holes: every so many elements is masked; moves: its numbers change when the file is written anew
V(n, d, c, h, m) == [name |-> n, dims |-> d, code |-> c, holes |-> h, moves |-> m]
Layout(k) ==
  CASE k = "nc" -> <<V("time", <<"time">>, 1, 0, FALSE), V("time_bnds", <<"time", "bnds">>, 2, 0, FALSE), V("y", <<"y">>, 3, 0, FALSE), V("x", <<"x">>, 4, 0, FALSE),
                     V("y_bnds", <<"y", "bnds">>, 5, 0, FALSE), V("x_bnds", <<"x", "bnds">>, 6, 0, FALSE),
                     V("a", <<"time", "y", "x">>, 7, 5, TRUE), V("b", <<"y", "x">>, 8, 0, TRUE), V("s", <<>>, 9, 0, TRUE)>>
    [] k = "csv" -> <<V("p", <<"n_records">>, 1, 0, FALSE), V("q", <<"n_records">>, 2, 0, FALSE), V("r", <<"n_records">>, 3, 0, FALSE)>>
    [] k = "vector" -> <<V("p", <<"ocgis_geom">>, 1, 3, FALSE), V("q", <<"ocgis_geom">>, 2, 0, FALSE), V("ocgis_geom", <<"ocgis_geom">>, 3, 0, FALSE)>>
DimsOf(k) == CASE k = "nc" -> <<"time", "y", "x", "bnds">> [] k = "csv" -> <<"n_records">> [] k = "vector" -> <<"ocgis_geom">>
Slicable(k) == IF k = "nc" THEN <<"time", "y", "x">> ELSE DimsOf(k)
SizeOf(k, d) == IF d = "bnds" THEN 2 ELSE Sizes[CHOOSE n \in 1..Len(DimsOf(k)) : DimsOf(k)[n] = d]
VarOf(k, n) == LET l == Layout(k) IN l[CHOOSE j \in 1..Len(l) : l[j].name = n]
\* row-major places
RECURSIVE Flat(_, _, _)
Flat(shape, at, n) == IF n = 0 THEN 0 ELSE Flat(shape, at, n - 1) * shape[n] + at[n]
RECURSIVE At(_, _)
At(shape, k) == IF shape = <<>> THEN <<>> ELSE LET w == ProdSeq(Tail(shape)) IN <<k \div w>> \o At(Tail(shape), k % w)
Lens(ps) == [n \in 1..Len(ps) |-> Len(ps[n])]
\* the elements of `data` (row-major in `shape`) at the positions ps (from 0) of each dimension
Take(shape, ps, data) == LET new == Lens(ps) IN [k \in 1..ProdSeq(new) |-> LET at == At(new, k - 1) IN data[Flat(shape, [n \in 1..Len(ps) |-> ps[n][at[n] + 1]], Len(ps)) + 1]]
FileData(k, v, vr) == LET x == VarOf(k, v) sh == [n \in 1..Len(x.dims) |-> SizeOf(k, x.dims[n])] IN
  [j \in 1..ProdSeq(sh) |-> IF x.holes > 0 /\ j % x.holes = 0 THEN MISS ELSE x.code * 100 + j + (IF x.moves THEN 10000 * vr ELSE 0)]
FileShape(k, v) == LET x == VarOf(k, v) IN [n \in 1..Len(x.dims) |-> SizeOf(k, x.dims[n])]

\* a handle: [sel: dimension -> positions of the file, vars: name -> [st, hide, data]]; hide: marked as masked while unread
SelOf(h, k, v) == LET x == VarOf(k, v) IN [n \in 1..Len(x.dims) |-> h.sel[x.dims[n]]]
ShapeOf(h, k, v) == Lens(SelOf(h, k, v))
Fresh(k) == [sel |-> [d \in Rng(DimsOf(k)) |-> [n \in 1..SizeOf(k, d) |-> n - 1]], vars |-> [v \in {x.name : x \in Rng(Layout(k))} |-> [st |-> "unread", hide |-> <<>>, data |-> <<>>]]]
Loaded(h, k, v, vr) == LET s == h.vars[v] raw == Take(FileShape(k, v), SelOf(h, k, v), FileData(k, v, vr)) IN
  IF s.st = "read" THEN s ELSE [st |-> "read", hide |-> <<>>, data |-> [j \in 1..Len(raw) |-> IF s.hide # <<>> /\ s.hide[j] THEN MISS ELSE raw[j]]]
\* the positions a selection of a dimension of length n stands for
Chosen(o, n) == IF o.form = "slice" THEN [j \in 1..(o.stop - o.start) |-> o.start + j - 1] ELSE o.pos
SliceH(h, k, d, ps) ==
  [sel |-> [h.sel EXCEPT ![d] = [j \in 1..Len(ps) |-> h.sel[d][ps[j] + 1]]],
   vars |-> [v \in DOMAIN h.vars |-> LET x == VarOf(k, v) s == h.vars[v]
               by == [n \in 1..Len(x.dims) |-> IF x.dims[n] = d THEN ps ELSE [j \in 1..Len(h.sel[x.dims[n]]) |-> j - 1]] IN
               [st |-> s.st, hide |-> IF s.hide = <<>> THEN <<>> ELSE Take(ShapeOf(h, k, v), by, s.hide), data |-> IF s.st = "read" THEN Take(ShapeOf(h, k, v), by, s.data) ELSE <<>>]]]
Keep(k, v) == IF k = "nc" /\ v \in {"time", "y", "x"} THEN {v, v \o "_bnds"} ELSE {v}
NewData(h, k, v, e) == [j \in 1..ProdSeq(ShapeOf(h, k, v)) |-> 50000 + 100 * e + j]
HideSeq(h, k, v, e) == [j \in 1..ProdSeq(ShapeOf(h, k, v)) |-> (j + e) % 3 = 0]
\* [heap, version] after an operation
Apply(k, hp, vr, o) ==
  LET h == hp[o.h] IN
  CASE o.op = "slice" -> <<Append(hp, SliceH(h, k, o.dim, Chosen(o, Len(h.sel[o.dim])))), vr>>
    [] o.op = "copy" -> <<Append(hp, h), vr>>
    [] o.op = "extract" -> <<Append(hp, [h EXCEPT !.vars = [v \in (Keep(k, o.var) \cap DOMAIN h.vars) |-> h.vars[v]]]), vr>>
    [] o.op = "read" -> <<[hp EXCEPT ![o.h].vars[o.var] = Loaded(h, k, o.var, vr)], vr>>
    [] o.op = "edit" -> <<[hp EXCEPT ![o.h].vars[o.var] = [st |-> "read", hide |-> <<>>, data |-> NewData(h, k, o.var, o.e)]], vr>>
    [] o.op = "hide" -> <<[hp EXCEPT ![o.h].vars[o.var] = IF @.st = "read" THEN [@ EXCEPT !.data = LET m == HideSeq(h, k, o.var, o.e) IN [j \in 1..Len(@) |-> IF m[j] THEN MISS ELSE @[j]]]
                                                         ELSE [@ EXCEPT !.hide = LET m == HideSeq(h, k, o.var, o.e) IN IF @ = <<>> THEN m ELSE [j \in 1..Len(m) |-> m[j] \/ @[j]]]], vr>>
    [] o.op = "rewrite" -> <<hp, vr + 1>>
\* what an operation shows: the data of every variable asked for
Shown(k, hp, o) == IF o.op = "read" THEN hp[o.h].vars[o.var].data ELSE <<>>
RECURSIVE Run(_, _, _, _)
Run(k, hp, vr, os) == IF os = <<>> THEN <<hp, vr>> ELSE LET a == Apply(k, hp, vr, Head(os)) IN Run(k, a[1], a[2], Tail(os))
RECURSIVE Shows(_, _, _, _)
Shows(k, hp, vr, os) == IF os = <<>> THEN <<>> ELSE LET a == Apply(k, hp, vr, Head(os)) IN <<Shown(k, a[1], Head(os))>> \o Shows(k, a[1], a[2], Tail(os))

----------------------------------------------------------------------------
Rand(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
RECURSIVE RandSeq(_, _)
RandSeq(n, len) == IF len = 0 THEN <<>> ELSE Append(RandSeq(n, len - 1), RandomElement(0..(n - 1)))
Sels(n, rnd) ==
  IF ~rnd THEN {[form |-> "slice", start |-> a, stop |-> b, pos |-> <<>>] : a \in {0, 1} \cap (0..(n - 1)), b \in {n}} \cup {[form |-> "list", start |-> 0, stop |-> 0, pos |-> <<n - 1>>]}
  ELSE LET f == RandomElement({"slice", "slice", "list", "bool", "int"}) a == RandomElement(0..(n - 1)) b == RandomElement((a + 1)..n) s == RandomElement((SUBSET (0..(n - 1))) \ {{}}) IN
       {[form |-> f, start |-> a, stop |-> b, pos |-> IF f = "int" THEN <<a>> ELSE IF f = "list" THEN RandSeq(n, Cardinality(s)) ELSE SetToSortSeq(s, LAMBDA x, y : x < y)]}
None == [form |-> "", start |-> 0, stop |-> 0, pos |-> <<>>]
Op(o, h, v, d, s, e) == [op |-> o, h |-> h, var |-> v, dim |-> d, form |-> s.form, start |-> s.start, stop |-> s.stop, pos |-> s.pos, e |-> e]
Editable == {"a", "b", "p", "q", "r"}
Names(k, hp, h) == LET dv == DOMAIN hp[h].vars names == OpNames \ (IF k = "nc" THEN {} ELSE {"rewrite"}) IN
  {x \in names : /\ (x = "edit" => dv \cap Editable # {}) /\ (x = "hide" => dv \cap Editable # {})
                 /\ (x = "slice" => \E v \in dv : \E d \in Rng(VarOf(k, v).dims) : d \in Rng(Slicable(k)))
                 /\ (Len(hp) >= MaxHandles => x \notin {"slice", "copy", "extract"})}
OpsFor(k, hp, rnd, n, h, o) ==
  LET dv == DOMAIN hp[h].vars IN
    CASE o = "slice" -> UNION {{Op(o, h, "", d, s, 0) : s \in Sels(Len(hp[h].sel[d]), rnd)} : d \in Rand({x \in Rng(Slicable(k)) : \E v \in dv : x \in Rng(VarOf(k, v).dims)}, rnd)}
      [] o = "copy" -> {Op(o, h, "", "", None, e) : e \in Rand({0, 1}, rnd)}
      [] o = "extract" -> {Op(o, h, v, "", None, 0) : v \in Rand(dv, rnd)}
      [] o = "read" -> {Op(o, h, v, "", None, e) : v \in Rand(dv, rnd), e \in Rand(IF rnd THEN {0, 1, 2} ELSE {0}, rnd)}
      [] o = "edit" -> {Op(o, h, v, "", None, n) : v \in Rand(dv \cap Editable, rnd)}
      [] o = "hide" -> {Op(o, h, v, "", None, n) : v \in Rand(dv \cap Editable, rnd)}
      [] o = "rewrite" -> {Op(o, 1, "", "", None, n)}
OpsOn(k, hp, rnd, n) == UNION {UNION {OpsFor(k, hp, rnd, n, h, o) : o \in Rand(Names(k, hp, h), rnd)} : h \in Rand(1..Len(hp), rnd)}

Init == kind \in Kinds /\ heap = <<Fresh(kind)>> /\ ver = 0 /\ ops = <<>> /\ i = 0 /\ done = FALSE
Step(rnd) == \E o \in OpsOn(kind, heap, rnd, Len(ops) + 1) : LET a == Apply(kind, heap, ver, o) IN heap' = a[1] /\ ver' = a[2] /\ ops' = Append(ops, o)
Next == Len(ops) < MaxOps /\ Step(FALSE) /\ UNCHANGED <<kind, i, done>>
\* reading first and selecting later is selecting first and reading later
Commute == \A h \in 1..Len(heap) : \A v \in DOMAIN heap[h].vars : LET s == heap[h].vars[v] IN
   (\A o \in Rng(ops) : o.op \notin {"edit", "hide", "rewrite"}) => (s.st = "read" => s.data = Take(FileShape(kind, v), SelOf(heap[h], kind, v), FileData(kind, v, 0)))
\* what has been read stays as it is unless it is edited
Kept == [][\A h \in 1..Len(heap) : \A v \in DOMAIN heap[h].vars : (heap[h].vars[v].st = "read" /\ heap'[h].vars[v] # heap[h].vars[v]) => (ops'[Len(ops')].op \in {"edit", "hide"} /\ ops'[Len(ops')].h = h)]_heap
View == <<kind, heap, ver>>

GenInit == kind = "" /\ heap = <<>> /\ ver = 0 /\ ops = <<>> /\ i = 0 /\ done = FALSE
GenNext == IF kind = "" THEN \E k \in Rand(Kinds, TRUE) : kind' = k /\ heap' = <<Fresh(k)>> /\ UNCHANGED <<ver, ops, i, done>>
           ELSE IF Len(ops) < MaxOps THEN Step(TRUE) /\ UNCHANGED <<kind, i, done>>
           ELSE ~done /\ done' = TRUE /\ UNCHANGED <<kind, heap, ver, ops, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([kind |-> kind, ops |-> ops])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging: r.kind, r.ops, r.shows (what each reading gave), r.final (handle by handle, variable by variable, all read in the end), r.types
Fail(r) ==
  IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE LET k == r.kind h0 == <<Fresh(k)>> end == Run(k, h0, 0, r.ops) sh == Shows(k, h0, 0, r.ops) IN
    {<<"read", n, r.ops[n], r.shows[n]>> : n \in {n \in 1..Len(sh) : r.ops[n].op = "read" /\ r.shows[n] # sh[n]}}
    \cup UNION {LET f == r.final[h] IN
         {<<"lost", h, v>> : v \in (DOMAIN end[1][h].vars) \ {y.name : y \in Rng(f)}} \cup {<<"extra", h, y>> : y \in {y.name : y \in Rng(f)} \ DOMAIN end[1][h].vars}
         \cup UNION {LET v == f[j].name x == f[j] want == Loaded(end[1][h], k, v, end[2]) IN
                Broken(<<<<<<"data", h, v, x.data>>, x.data = want.data>>, <<<<"shape", h, v, x.shape>>, x.shape = ShapeOf(end[1][h], k, v)>>,
                         <<<<"type", h, v, x.type>>, x.type \in Rng(r.types[v])>>, <<<<"fill", h, v, x.fill>>, x.fill \in Rng(r.fills[v])>>,
                         <<<<"bounds", h, v>>, x.bounds = (IF k = "nc" /\ v \in {"time", "y", "x"} THEN v \o "_bnds" ELSE "")>>>>)
                : j \in {j \in 1..Len(f) : f[j].name \in DOMAIN end[1][h].vars}} : h \in 1..Len(end[1])}
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ kind = "" /\ heap = 0 /\ ver = 0 /\ ops = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<kind, heap, ver, ops, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
