------------------------------- MODULE NetCdf -------------------------------
(* I01.  A collection of variables on dimensions, the file it becomes, and what reading the file gives.  The file is written *)
(* variable by variable, each in one pass or region by region in any order; reading it gives the collection back.            *)
EXTENDS Judge, SequencesExt, Functions

CONSTANTS Formats, MaxVars, MaxSize, MaxDims, MaxKids, Types, Scales, Offsets, Extras, AttrNames

VARIABLES cs, file, todo, step, i, done

----------------------------------------------------------------------------
\* coll: [dims, vars, attrs, kids]; dims: <<[name, size, unl]>>; a variable: [name, dims (names), type, cells, attrs];
\* a cell is a fraction <<num, den>>, a text <<s>>, or <<>> when masked; attrs: <<[n, v, hid]>>, hid when it is not for the file
DimSize(c, d) == LET k == CHOOSE k \in 1..Len(c.dims) : c.dims[k].name = d IN c.dims[k].size
Shape(c, v) == [k \in 1..Len(v.dims) |-> DimSize(c, v.dims[k])]
Attrs(v) == {<<a.n, a.v>> : a \in {b \in Rng(v.attrs) : ~b.hid}}
Fixed(o, d) == o.fixed /\ d.unl
\* what the file has to hold of each
DiskDim(o, d) == <<d.name, d.size, d.unl /\ ~o.fixed>>
DiskVar(v) == [name |-> v.name, dims |-> v.dims, type |-> v.type, cells |-> v.cells, attrs |-> Attrs(v)]
UsedDims(c) == {d \in Rng(c.dims) : \E v \in Rng(c.vars) : d.name \in Rng(v.dims)}
Disk(o, c) == [dims |-> {DiskDim(o, d) : d \in UsedDims(c)}, vars |-> {DiskVar(v) : v \in Rng(c.vars)}, attrs |-> Attrs(c)]
\* unpacking
Unpack(p, x) == IF x = p.fill \/ (p.miss # 0 /\ x = p.miss) \/ (p.valid # <<>> /\ ~(x >= p.valid[1] /\ x <= p.valid[2])) THEN <<>>
                ELSE <<x * p.scale[1] * p.offset[2] + p.offset[1] * p.scale[2], p.scale[2] * p.offset[2]>>
Same(a, b) == (a = <<>> /\ b = <<>>) \/ (a # <<>> /\ Len(a) = Len(b) /\ (IF Len(a) = 1 THEN a = b ELSE a[2] # 0 /\ b[2] # 0 /\ a[1] * b[2] = b[1] * a[2]))
Empty(x) == IF x = <<"">> THEN <<>> ELSE x  \* a masked text has no characters
SameCells(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Same(Empty(s[k]), Empty(t[k]))

----------------------------------------------------------------------------
Rand(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
Dims(rnd, fmt, s) ==
  LET n == IF rnd THEN RandomElement(1..MaxDims) ELSE MaxDims
      u == IF rnd THEN RandomElement(0..n) ELSE 1 IN
  TLCEval([k \in 1..n |-> [name |-> "d" \o ToString(k), size |-> IF rnd THEN RandomElement(1..MaxSize) ELSE MaxSize,
                           unl |-> IF fmt = "NETCDF4" /\ rnd THEN RandomElement(1..4) = 1 ELSE k = 1 /\ u = 1]])
\* in the classic formats the unlimited dimension comes first
Order(fmt, ds, s) == LET all == SetToSeqs(s) ok == {q \in all : fmt = "NETCDF4" \/ \A k \in 2..Len(q) : ~ds[q[k]].unl} IN ok
DimSets(fmt, ds) == UNION {Order(fmt, ds, x) : x \in SUBSET (1..Len(ds))}
Word(k) == LET ws == <<"a", "bc", "", "d e", "fgh", "Zz">> IN ws[1 + (k % 6)]
Cell(tp, k, m) == IF m THEN <<>> ELSE IF tp = "S" THEN <<Word(k)>> ELSE IF tp \in {"f4", "f8"} THEN <<k, 4>> ELSE <<k % 100, 1>>
MkVar(nm, ds, q, tp, p, rnd, at) ==
  LET n == ProdSeq([k \in 1..Len(q) |-> ds[q[k]].size]) off == IF rnd THEN RandomElement(0..40) ELSE 0 IN
  [name |-> nm, dims |-> [k \in 1..Len(q) |-> ds[q[k]].name], type |-> tp, attrs |-> at,
   cells |-> TLCEval([k \in 1..n |-> Cell(tp, off + 3 * k, IF rnd THEN RandomElement(1..10) <= p ELSE k % 2 = p)])]
AttrsOf(rnd, s) == IF rnd THEN TLCEval([k \in 1..RandomElement(0..3) |-> [n |-> RandomElement(AttrNames), v |-> "", hid |-> FALSE]]) ELSE <<>>
Kinds(fmt) == IF fmt \in {"NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"} THEN Types \cap {"i1", "i2", "i4", "f4", "f8", "S"} ELSE Types
RVars(fmt, ds, s) == TLCEval([k \in 1..RandomElement(1..MaxVars) |->
  LET tp == RandomElement(Kinds(fmt)) q == RandomElement(DimSets(fmt, ds)) IN MkVar("v" \o ToString(k), ds, q, tp, RandomElement({0, 0, 2, 5}), TRUE, AttrsOf(TRUE, s))])
RColl(fmt, s) == LET ds == Dims(TRUE, fmt, s) IN [name |-> "", dims |-> ds, vars |-> RVars(fmt, ds, s), attrs |-> AttrsOf(TRUE, s)]
RKids(fmt, s) == IF fmt # "NETCDF4" THEN <<>> ELSE TLCEval([k \in 1..RandomElement({0, 0, 1, MaxKids}) |-> [RColl(fmt, s) EXCEPT !.name = "g" \o ToString(k)]])
\* a packed variable of a file that somebody else made
RPacked(s) == LET sc == RandomElement(Scales) of == RandomElement(Offsets) f == RandomElement({-9, -99, 77}) m == RandomElement({0, 0, 50}) IN
  [type |-> RandomElement({"i1", "i2", "i4"}), scale |-> sc, offset |-> of, fill |-> f, miss |-> m, valid |-> RandomElement({<<>>, <<>>, <<-5, 60>>}), form |-> RandomElement(Extras),
   vals |-> TLCEval([k \in 1..RandomElement(1..6) |-> RandomElement({f, m, -5, -6, 0, 1, 7, 33, 60, 61, 90})])]
RField(s) == [nt |-> RandomElement(1..4), nz |-> RandomElement({0, 0, 1, 2}), ny |-> RandomElement(1..3), nx |-> RandomElement(1..4), grid |-> RandomElement({"vector", "curv"}),
              gb |-> RandomElement(BOOLEAN), tb |-> RandomElement(BOOLEAN), unl |-> RandomElement(BOOLEAN), crs |-> RandomElement({"none", "spherical", "latlon", "lambert", "wgs84"}),
              cal |-> RandomElement({"standard", "noleap", "360_day"}), tin |-> RandomElement({"num", "dates"}), gmask |-> RandomElement({"none", "some", "all0"}),
              vars |-> TLCEval([k \in 1..RandomElement(1..3) |-> [dims |-> RandomElement({<<"t", "y", "x">>, <<"y", "x">>, <<"t", "z", "y", "x">>, <<"t", "y">>, <<"t">>, <<"x", "y">>, <<"t", "x", "y">>, <<>>}),
                                                                   type |-> RandomElement({"f4", "f8", "i4"}), m |-> RandomElement({0, 0, 3})]])]
ROpt(fmt, kind, s) == [kind |-> kind, fmt |-> fmt, fixed |-> RandomElement({0, 0, 1}) = 1, zlib |-> RandomElement({0, 0, 1}) = 1 /\ fmt \in {"NETCDF4", "NETCDF4_CLASSIC"}, cuts |-> RandomElement(0..2)]

\* the model: a small collection written in any order of variables and regions
Regions(c, v) == IF v.dims = <<>> \/ v.type = "S" THEN {<<v.name, 1, Len(v.cells)>>} ELSE LET w == Len(v.cells) \div DimSize(c, v.dims[1]) IN {<<v.name, (k - 1) * w + 1, k * w>> : k \in 1..DimSize(c, v.dims[1])}
Small == UNION {LET ds == Dims(FALSE, f, 0) IN {[opt |-> [kind |-> "coll", fmt |-> f, fixed |-> fx, zlib |-> FALSE, cuts |-> 0],
            coll |-> [name |-> "", dims |-> ds, vars |-> <<MkVar("v1", ds, q, "f8", 1, FALSE, <<>>), MkVar("v2", ds, r, tp, 0, FALSE, <<>>)>>, attrs |-> <<>>]]
            : q \in DimSets(f, ds), r \in DimSets(f, ds), tp \in {"i4", "S"}, fx \in BOOLEAN} : f \in Formats}
Nothing == [none |-> TRUE]
Init == cs \in Small /\ file = [v \in {x.name : x \in Rng(cs.coll.vars)} |-> Nothing] /\ todo = UNION {Regions(cs.coll, v) : v \in Rng(cs.coll.vars)} /\ step = 0 /\ i = 0 /\ done = FALSE
VarOf(c, nm) == c.vars[CHOOSE k \in 1..Len(c.vars) : c.vars[k].name = nm]
\* the first region defines the variable, all of it unwritten (masked); every region fills its own cells
Next == \E r \in todo :
   /\ LET v == VarOf(cs.coll, r[1]) old == IF file[r[1]] = Nothing THEN [k \in 1..Len(v.cells) |-> <<>>] ELSE file[r[1]].cells IN
      file' = [file EXCEPT ![r[1]] = [DiskVar(v) EXCEPT !.cells = [k \in 1..Len(v.cells) |-> IF k \in r[2]..r[3] THEN v.cells[k] ELSE old[k]]]]
   /\ todo' = todo \ {r} /\ UNCHANGED <<cs, step, i, done>>
Complete == todo = {} => {file[n] : n \in DOMAIN file} = Disk(cs.opt, cs.coll).vars
\* nothing masked shows, and no cell is written by a region that does not hold it
NoPhantom == \A n \in DOMAIN file : file[n] # Nothing => \A k \in 1..Len(file[n].cells) : file[n].cells[k] \in {<<>>, VarOf(cs.coll, n).cells[k]}

GenInit == cs = [opt |-> 0] /\ file = <<>> /\ todo = {} /\ step = 0 /\ i = 0 /\ done = FALSE
GenNext == \/ /\ step = 0 /\ step' = 1
              /\ \E f \in Rand(Formats, TRUE) : \E kd \in {RandomElement({"coll", "coll", "field", "field", "packed"})} :
                 cs' = [opt |-> ROpt(f, kd, step), coll |-> IF kd = "coll" THEN RColl(f, step) ELSE <<>>, kids |-> IF kd = "coll" THEN RKids(f, step) ELSE <<>>,
                        field |-> IF kd = "field" THEN RField(step) ELSE <<>>, packed |-> IF kd = "packed" THEN RPacked(step) ELSE <<>>]
              /\ UNCHANGED <<file, todo, i, done>>
           \/ step = 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<cs, file, todo, step, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson(cs)>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging: r.before (the collection written), r.file (what the file holds, read without the code under test), r.back (what the code reads)
\* each a sequence of collections (the root, then its groups)
ByName(c, n) == LET s == {v \in Rng(c.vars) : v.name = n} IN s
DimSet(o, c) == {DiskDim(o, d) : d \in UsedDims(c)}
NoOpt == [fixed |-> FALSE]
VarBad(o, a, b, where) ==
  (IF {v.name : v \in Rng(a.vars)} \ Rng(o.drop) = {v.name : v \in Rng(b.vars)} \ Rng(o.add) THEN {} ELSE {<<where, "names", {v.name : v \in Rng(b.vars)}>>})
  \cup UNION {UNION {Broken(<<<<<<where, "dims", v.name>>, v.dims = w.dims>>, <<<<where, "type", v.name, w.type>>, v.type = w.type>>, <<<<where, "cells", v.name, w.cells>>, SameCells(v.cells, w.cells)>>,
                                <<<<where, "attrs", v.name, Attrs(w)>>, Attrs(v) = Attrs(w)>>>>) : w \in ByName(b, v.name)} : v \in {x \in Rng(a.vars) : x.name \notin Rng(o.drop)}}
DimBad(o, a, b, where) == LET want == DimSet(o, a) got == DimSet(NoOpt, b) IN IF want \subseteq got \/ (o.loose /\ {<<d[1], d[2]>> : d \in want} \subseteq {<<d[1], d[2]>> : d \in got}) THEN {} ELSE {<<where, "dimensions", got>>}
CollBad(o, a, b, where) == VarBad(o, a, b, where) \cup DimBad(o, a, b, where) \cup (IF Attrs(a) = Attrs(b) THEN {} ELSE {<<where, "attrs", Attrs(b)>>}) \cup (IF a.name = b.name THEN {} ELSE {<<where, "name", b.name>>})
Fail(r) ==
  IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE LET n == Len(r.before) IN
    (IF Len(r.file) = n /\ Len(r.back) = n THEN UNION {CollBad(r.opt, r.before[k], r.file[k], "file") \cup CollBad(r.opt, r.before[k], r.back[k], "back") : k \in 1..n} ELSE {<<"groups", Len(r.file), Len(r.back)>>})
    \cup (IF r.roles[1] = r.roles[2] THEN {} ELSE {<<"roles", r.roles>>})
    \cup (IF r.packed = <<>> THEN {} ELSE LET p == r.packed[1] IN
            Broken(<<<<"unpacked", SameCells([k \in 1..Len(p.vals) |-> Unpack(p, p.vals[k])], r.before[1].vars[1].cells)>>>>))
    \cup (IF r.unchanged THEN {} ELSE {<<"source changed">>})
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ cs = 0 /\ file = 0 /\ todo = 0 /\ step = 0
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<cs, file, todo, step, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
