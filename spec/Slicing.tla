------------------------------ MODULE Slicing ------------------------------
(* D01.  A heap of collections.  A collection is abstracted to, for every dimension, the sequence of original         *)
(* positions it still holds; every variable's content is then determined by the content of the base collection.       *)
(* Slice makes a new collection from an existing one; nothing else ever changes.                                      *)
EXTENDS Judge, SequencesExt

CONSTANTS DimNames,      \* names of the dimensions
          Lens,          \* set of functions: DimNames -> length of the base collection
          MaxOps, MaxPick

VARIABLES heap,          \* sequence of collections; heap[1] is the base
          hist,          \* the operations so far
          i, done
vars == <<heap, hist, i, done>>

----------------------------------------------------------------------------
(* Selectors.  A selector for one dimension of length n is a record [dim, kind, a, b, lst]; its meaning is the         *)
(* sequence of (zero-based) positions it picks.                                                                        *)
UpTo(a, b) == [k \in 1..(IF b > a THEN b - a ELSE 0) |-> a + k - 1]
Norm(k, n) == IF k < 0 THEN n + k ELSE k
Clip(k, n) == IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
RECURSIVE TrueAt(_, _)
TrueAt(m, p) == IF p > Len(m) THEN <<>> ELSE (IF m[p] = 1 THEN <<p - 1>> ELSE <<>>) \o TrueAt(m, p + 1)
RECURSIVE Every(_, _, _)
Every(a, b, s) == IF a >= b THEN <<>> ELSE <<a>> \o Every(a + s, b, s)
Positions(s, n) ==
    CASE s.kind = "int" -> <<Norm(s.a, n)>>
      [] s.kind = "range" -> UpTo(Clip(Norm(s.a, n), n), Clip(Norm(s.b, n), n))
      [] s.kind = "head" -> UpTo(0, Clip(Norm(s.b, n), n))
      [] s.kind = "tail" -> UpTo(Clip(Norm(s.a, n), n), n)
      [] s.kind = "all" -> UpTo(0, n)
      [] s.kind = "step" -> Every(s.a, Clip(s.b, n), s.lst[1])
      [] s.kind \in {"list", "array"} -> [k \in 1..Len(s.lst) |-> Norm(s.lst[k], n)]
      [] s.kind = "mask" -> TrueAt(s.lst, 1)

Pick(seq, pos) == [k \in 1..Len(pos) |-> seq[pos[k] + 1]]
\* the collection that results from selecting with the set/sequence of selectors sels
SelFor(sels, d) == {k \in 1..Len(sels) : sels[k].dim = d}
Apply(col, sels) == [d \in DOMAIN col |->
    LET ks == SelFor(sels, d) IN
    IF ks = {} THEN col[d]
    ELSE LET s == sels[CHOOSE k \in ks : TRUE] IN Pick(col[d], Positions(s, Len(col[d])))]

Base(len) == [d \in DOMAIN len |-> UpTo(0, len[d])]

----------------------------------------------------------------------------
Sel(d, k, a, b, l) == [dim |-> d, kind |-> k, a |-> a, b |-> b, lst |-> l]
Selectors(d, n) ==
    {Sel(d, "int", a, 0, <<>>) : a \in (-n)..(n - 1)}
    \cup {Sel(d, "range", a, b, <<>>) : a \in 0..(n - 1), b \in 1..(n + 1)}
    \cup {Sel(d, "range", -a, -b, <<>>) : a \in 1..n, b \in 1..n}
    \cup {Sel(d, "head", 0, b, <<>>) : b \in (1 - n)..n}
    \cup {Sel(d, "tail", a, 0, <<>>) : a \in (-n)..(n - 1)}
    \cup {Sel(d, "all", 0, 0, <<>>)}
    \cup UNION {{Sel(d, kd, 0, 0, l) : l \in [1..m -> 0..(n - 1)]} : m \in 1..MaxPick, kd \in {"list", "array"}}
    \cup {Sel(d, "array", 0, 0, l) : l \in [1..1 -> (-n)..(-1)]}
    \cup {Sel(d, "mask", 0, 0, l) : l \in [1..n -> 0..1]}
UsableOn(s, n) == LET p == Positions(s, n) IN Len(p) > 0

Init == /\ \E l \in Lens : heap = <<Base(l)>>
        /\ hist = <<>> /\ i = 0 /\ done = FALSE
SliceOne == \E o \in 1..Len(heap) : \E d \in DimNames :
    \E s \in Selectors(d, Len(heap[o][d])) :
        /\ UsableOn(s, Len(heap[o][d]))
        /\ heap' = Append(heap, Apply(heap[o], <<s>>))
        /\ hist' = Append(hist, [obj |-> o, sels |-> <<s>>])
\* random behaviours: one randomly chosen successor per step (TLC's simulation evaluates every successor otherwise);
\* a random value is fixed by quantifying over a singleton
Kinds == <<"int", "range", "neg", "head", "tail", "list", "array", "mask", "all">>
SelOf(d, n, kd, p, q, l) ==     \* p, q and l are random numbers, reduced to the length at hand
    LET a == p % n  b == a + 1 + (q % (n + 1 - a)) IN
    CASE kd = "int" -> Sel(d, "int", IF q % 2 = 0 THEN a ELSE a - n, 0, <<>>)
      [] kd = "range" -> Sel(d, "range", a, b, <<>>)
      [] kd = "neg" -> IF n = 1 THEN Sel(d, "all", 0, 0, <<>>)
                       ELSE LET c == 2 + (p % (n - 1)) IN Sel(d, "range", -c, -(1 + (q % (c - 1))), <<>>)
      [] kd = "head" -> Sel(d, "head", 0, IF q % 2 = 0 \/ n = 1 THEN a + 1 ELSE -(1 + (p % (n - 1))), <<>>)
      [] kd = "tail" -> Sel(d, "tail", IF q % 2 = 0 THEN a ELSE a - n, 0, <<>>)
      [] kd = "all" -> Sel(d, "all", 0, 0, <<>>)
      [] kd \in {"list", "array"} -> Sel(d, kd, 0, 0, [k \in 1..(1 + (q % MaxPick)) |-> l[k] % n])
      [] kd = "mask" -> Sel(d, "mask", 0, 0, [k \in 1..n |-> IF k = a + 1 THEN 1 ELSE l[k] % 2])
GenInit == /\ \E l \in {RandomElement(Lens)} : heap = <<Base(l)>>
           /\ hist = <<>> /\ i = 0 /\ done = FALSE
R == 0..59
Rand(S) == {RandomElement(S)}
SliceRandom ==
    \E o \in Rand(1..Len(heap)), two \in Rand({0, 1, 2}), d \in Rand(DimNames), e \in Rand(DimNames),
       kd \in Rand(1..Len(Kinds)), ke \in Rand(1..Len(Kinds)), p \in Rand(R), q \in Rand(R), r \in Rand(R), s \in Rand(R) :
    \E l \in Rand([1..6 -> 0..11]), m \in Rand([1..6 -> 0..11]) :
    LET sd == SelOf(d, Len(heap[o][d]), Kinds[kd], p, q, l)
        se == SelOf(e, Len(heap[o][e]), Kinds[ke], r, s, m)
        sels == IF d = e \/ two > 0 THEN <<sd>> ELSE <<sd, se>> IN
    /\ heap' = Append(heap, Apply(heap[o], sels))
    /\ hist' = Append(hist, [obj |-> o, sels |-> sels])
Bound == Len(hist) < MaxOps /\ UNCHANGED <<i, done>>
Next == Bound /\ SliceOne
GenNext == Bound /\ SliceRandom
Emit == Len(hist) = MaxOps => PrintT(<<"CASE", ToJson([len |-> [d \in DimNames |-> Len(heap[1][d])], ops |-> hist])>>)
View == heap

\* slicing in two steps is slicing once with the composed selection, and the order of independent dimensions is irrelevant
Positive == \A o \in 1..Len(heap) : \A d \in DimNames : Len(heap[o][d]) > 0
OnlyOriginals == \A o \in 1..Len(heap) : \A d \in DimNames : Rng(heap[o][d]) \subseteq Rng(heap[1][d])
SourcesUntouched == [][\A o \in 1..Len(heap) : heap'[o] = heap[o]]_heap

----------------------------------------------------------------------------
(* Judging.  layout.vars[k] = [name, dims, vals, mask, bounds]: vals and mask are the flattened base content.          *)
RECURSIVE Heap(_, _)
Heap(h, ops) == IF ops = <<>> THEN h
                ELSE Heap(Append(h, Apply(h[Head(ops).obj], Head(ops).sels)), Tail(ops))
LenOf(l, d) == l[d]
\* all positions of a variable of collection c in row-major order, as positions in the base
RECURSIVE Tuples(_)
Tuples(seqs) == IF seqs = <<>> THEN << <<>> >>
    ELSE LET rest == Tuples(Tail(seqs)) h == Head(seqs) IN
         FlattenSeq([k \in 1..Len(h) |-> [m \in 1..Len(rest) |-> <<h[k]>> \o rest[m]]])
RECURSIVE Offset(_, _)
Offset(idx, shp) == IF idx = <<>> THEN 0 ELSE Head(idx) * ProdSeq(Tail(shp)) + Offset(Tail(idx), Tail(shp))
Expected(v, c, base) ==
    LET shp == [k \in 1..Len(v.dims) |-> Len(base[v.dims[k]])]
        tp == Tuples([k \in 1..Len(v.dims) |-> c[v.dims[k]]])
        off == [m \in 1..Len(tp) |-> Offset(tp[m], shp) + 1] IN
    [vals |-> [m \in 1..Len(tp) |-> v.vals[off[m]]],
     mask |-> [m \in 1..Len(tp) |-> IF v.mask = <<>> THEN 0 ELSE v.mask[off[m]]],
     shape |-> [k \in 1..Len(v.dims) |-> Len(c[v.dims[k]])]]

ObsOf(o, name) == LET ks == {k \in 1..Len(o.vars) : o.vars[k].name = name} IN
    IF ks = {} THEN [name |-> "", dims |-> <<>>, shape |-> <<>>, vals |-> <<>>, mask |-> <<>>, bounds |-> ""]
    ELSE o.vars[CHOOSE k \in ks : TRUE]
ColFail(lay, o, c, base, tag) ==
    UNION {LET v == lay[k] x == Expected(v, c, base) g == ObsOf(o, v.name) IN
        Broken(<< <<tag \o "variable-present:" \o v.name, g.name = v.name>>,
                  <<tag \o "dimensions:" \o v.name, g.dims = v.dims>>,
                  <<tag \o "shape:" \o v.name, g.shape = x.shape>>,
                  <<tag \o "values:" \o v.name, g.vals = x.vals>>,
                  <<tag \o "mask:" \o v.name, g.mask = x.mask>>,
                  <<tag \o "bounds-link:" \o v.name, g.bounds = v.bounds>> >>) : k \in 1..Len(lay)}
    \cup Broken(<< <<tag \o "dimension-lengths", \A d \in DOMAIN o.dims : d \in DOMAIN c => o.dims[d] = Len(c[d])>>,
                   <<tag \o "dimensions-held", o.partial \/ DOMAIN c \subseteq DOMAIN o.dims>>,
                   <<tag \o "nothing-extra", Cardinality({o.vars[k].name : k \in 1..Len(o.vars)}) = Len(lay)>> >>)

HistFail(r) == LET b == Base(r.len) h == Heap(<<b>>, r.ops) IN
    IF ~r.ok THEN {"call-succeeds:" \o r.err}
    ELSE UNION {ColFail(r.layout, r.obs[k], h[k + 1], b, "") : k \in 1..Len(r.obs)}
         \cup UNION {ColFail(r.layout, r.final[k], h[k], b, "source-changed-") : k \in 1..Len(r.final)}
         \cup Broken(<< <<"all-observed", Len(r.obs) = Len(r.ops) /\ Len(r.final) = Len(h)>> >>)

\* one dimension on its own
DimFail(r) == LET p == Positions(r.sel, r.n) IN Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"length", r.length = Len(p)>>,
    <<"unlimited-kept", r.unlimited = r.wasunlimited>>,
    <<"source-positions", r.src = <<>> \/ r.src = Pick(r.base, p)>>,
    <<"source-dimension-untouched", r.after = r.n>> >>)

Fail(r) == CASE r.kind = "history" -> HistFail(r)
             [] r.kind = "dim" -> DimFail(r)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ heap = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<heap, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
