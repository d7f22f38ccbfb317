------------------------------ MODULE Masking ------------------------------
(* D04.  A heap of collections (an original, its copies and slices).  Every collection holds the same variables; a      *)
(* variable's mask is the set of its hidden positions (index tuples), or not there at all.  Values are never part of    *)
(* the state: no operation may change one.                                                                              *)
EXTENDS Judge, SequencesExt, Randomization

CONSTANTS Layout,        \* sequence of [name, dims, bounds, grid]: bounds is the name of the bounds variable or ""
          BaseLen,       \* dimension name -> length
          MaxOps

VARIABLES heap,          \* sequence of [len: dim -> length, mask: name -> [on: BOOLEAN, at: set of positions]]
          hist, i, done
vars == <<heap, hist, i, done>>

Names == {Layout[k].name : k \in 1..Len(Layout)}
V(n) == Layout[CHOOSE k \in 1..Len(Layout) : Layout[k].name = n]
Dims(n) == V(n).dims
RECURSIVE Tuples(_)
Tuples(seqs) == IF seqs = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Head(seqs), t \in Tuples(Tail(seqs))}
Pos(len, n) == Tuples([k \in 1..Len(Dims(n)) |-> 0..(len[Dims(n)[k]] - 1)])
At(dims, p, d) == p[CHOOSE k \in 1..Len(dims) : dims[k] = d]
Shared(a, b) == Rng(Dims(a)) \cap Rng(Dims(b))
\* the positions of variable b that line up with a position of variable a in S
Reach(len, a, b, S) == {p \in Pos(len, b) : \E q \in S : \A d \in Shared(a, b) : At(Dims(b), p, d) = At(Dims(a), q, d)}

Off == [on |-> FALSE, at |-> {}]
On(S) == [on |-> TRUE, at |-> S]
Join(m, S) == On(m.at \cup S)

\* a variable's bounds hide whatever the variable hides
WithBounds(len, ms, n) ==
    LET b == V(n).bounds IN
    IF b = "" \/ ~ms[n].on THEN ms ELSE [ms EXCEPT ![b] = Join(@, Reach(len, n, b, ms[n].at))]
Own(ms, n, m, upd) == [ms EXCEPT ![n] = IF m.on THEN (IF upd THEN Join(ms[n], m.at) ELSE m)
                                                 ELSE (IF upd THEN ms[n] ELSE Off)]
\* the mask of n reaches variable t
Touch(len, ms, n, t, upd) ==
    LET same == Dims(n) = Dims(t)
        new == IF same /\ ~upd THEN On(ms[n].at) ELSE Join(ms[t], Reach(len, n, t, ms[n].at)) IN
    WithBounds(len, [ms EXCEPT ![t] = new], t)
RECURSIVE Over(_, _, _, _, _)
Over(len, ms, n, ts, upd) == IF ts = <<>> THEN ms ELSE Over(len, Touch(len, ms, n, Head(ts), upd), n, Tail(ts), upd)
Targets(n, excl) == SelectSeq([k \in 1..Len(Layout) |-> Layout[k].name],
                              LAMBDA t : t # n /\ t \notin excl /\ Dims(t) # <<>> /\ Shared(n, t) # {})
Cascade(len, ms, n, excl, upd) == IF ms[n].on THEN Over(len, ms, n, Targets(n, excl), upd) ELSE ms

SetMask(o, n, m, casc, upd) ==
    LET ms == Own(o.mask, n, m, upd) IN
    [o EXCEPT !.mask = IF casc THEN Cascade(o.len, ms, n, {}, upd) ELSE WithBounds(o.len, ms, n)]
Spread(o, n, excl, upd) == [o EXCEPT !.mask = Cascade(o.len, o.mask, n, excl, upd)]
GridNames == {Layout[k].name : k \in {k \in 1..Len(Layout) : Layout[k].grid}}
\* a grid's mask lives on its own variable and spares the coordinates
GridMask(o, n, m, casc) ==
    LET ms == Own(o.mask, n, m, FALSE) IN
    \* other variables keep what they hide
    [o EXCEPT !.mask = IF casc THEN Cascade(o.len, ms, n, GridNames, TRUE) ELSE ms]
CutTo(dims, d, a, S) == {[k \in 1..Len(p) |-> IF dims[k] = d THEN p[k] - a ELSE p[k]] : p \in S}
Cut(o, d, a, b) ==
    [len |-> [o.len EXCEPT ![d] = b - a],
     mask |-> [n \in DOMAIN o.mask |->
        IF d \notin Rng(Dims(n)) THEN o.mask[n]
        ELSE [on |-> o.mask[n].on,
              at |-> CutTo(Dims(n), d, a, {p \in o.mask[n].at : At(Dims(n), p, d) \in a..(b - 1)})]]]

Base == [len |-> BaseLen, mask |-> [n \in Names |-> IF V(n).gmask THEN On({}) ELSE Off]]

Step(h, op) ==
    LET o == h[op.obj] IN
    CASE op.op = "set" -> [h EXCEPT ![op.obj] = SetMask(o, op.var, On(Rng(op.m)), op.cascade, op.update)]
      [] op.op = "clear" -> [h EXCEPT ![op.obj] = SetMask(o, op.var, Off, op.cascade, op.update)]
      [] op.op = "spread" -> [h EXCEPT ![op.obj] = Spread(o, op.var, Rng(op.exclude), op.update)]
      [] op.op = "create" -> [h EXCEPT ![op.obj] = IF o.mask[op.var].on THEN o ELSE SetMask(o, op.var, On({}), FALSE, FALSE)]
      [] op.op = "grid" -> [h EXCEPT ![op.obj] = GridMask(o, op.var, On(Rng(op.m)), op.cascade)]
      [] op.op \in {"copy", "deepcopy"} -> Append(h, o)
      [] op.op = "cut" -> Append(h, Cut(o, op.dim, op.a, op.b))
RECURSIVE Run(_, _)
Run(h, ops) == IF ops = <<>> THEN h ELSE Run(Step(h, Head(ops)), Tail(ops))

----------------------------------------------------------------------------
Maskable == {Layout[k].name : k \in {k \in 1..Len(Layout) : Layout[k].src}}
MaskVars == {Layout[k].name : k \in {k \in 1..Len(Layout) : Layout[k].gmask}}
Op(kind, obj, var, m, c, u, ex, d, a, b) ==
    [op |-> kind, obj |-> obj, var |-> var, m |-> m, cascade |-> c, update |-> u, exclude |-> ex, dim |-> d, a |-> a, b |-> b]
Init == heap = <<Base>> /\ hist = <<>> /\ i = 0 /\ done = FALSE
Do(op) == heap' = Step(heap, op) /\ hist' = Append(hist, op) /\ UNCHANGED <<i, done>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in 1..Len(heap) :
            \/ \E n \in Maskable, c \in BOOLEAN, u \in BOOLEAN : \E S \in SUBSET Pos(heap[o].len, n) :
                 Do(Op("set", o, n, SetToSeq(S), c, u, <<>>, "", 0, 0))
            \/ \E n \in Maskable, c \in BOOLEAN, u \in BOOLEAN : Do(Op("clear", o, n, <<>>, c, u, <<>>, "", 0, 0))
            \/ \E n \in Maskable, u \in BOOLEAN, e \in Names : Do(Op("spread", o, n, <<>>, FALSE, u, <<e>>, "", 0, 0))
            \/ \E n \in MaskVars, c \in BOOLEAN : \E S \in SUBSET Pos(heap[o].len, n) :
                 Do(Op("grid", o, n, SetToSeq(S), c, FALSE, <<>>, "", 0, 0))
            \/ Do(Op("copy", o, "", <<>>, FALSE, FALSE, <<>>, "", 0, 0))
Rand(S) == {RandomElement(S)}
GenNext == /\ Len(hist) < MaxOps
    /\ \E o \in Rand(1..Len(heap)), n \in Rand(Maskable), c \in Rand(BOOLEAN), u \in Rand(BOOLEAN), k \in Rand(0..3),
          kind0 \in Rand({"set", "set2", "clear", "spread", "create", "grid", "copy", "deepcopy", "cut"}),
          d \in Rand(DOMAIN BaseLen), p \in Rand(0..59), q \in Rand(0..59), e \in Rand(Names) :
       LET kind == IF kind0 = "set2" THEN "set" ELSE kind0  len == heap[o].len[d]  a == p % len  b == a + 1 + (q % (len - a)) IN
       \E S \in {RandomSubset(Min2(k, Cardinality(Pos(heap[o].len, n))), Pos(heap[o].len, n))},
          g \in (IF MaskVars = {} THEN {n} ELSE Rand(MaskVars)) :
       \E T \in {RandomSubset(Min2(k, Cardinality(Pos(heap[o].len, g))), Pos(heap[o].len, g))} :
       Do(CASE kind \in {"set", "clear", "create"} -> Op(kind, o, n, IF kind = "set" THEN SetToSeq(S) ELSE <<>>, c, u, <<>>, "", 0, 0)
            [] kind = "spread" -> Op(kind, o, n, <<>>, FALSE, u, IF c THEN <<e>> ELSE <<>>, "", 0, 0)
            [] kind = "grid" -> IF MaskVars = {} THEN Op("set", o, n, SetToSeq(S), TRUE, TRUE, <<>>, "", 0, 0)
                                ELSE Op("grid", o, g, SetToSeq(T), c, FALSE, <<>>, "", 0, 0)
            [] kind \in {"copy", "deepcopy"} -> Op(kind, o, "", <<>>, FALSE, FALSE, <<>>, "", 0, 0)
            [] kind = "cut" -> IF d = "nb" THEN Op("copy", o, "", <<>>, FALSE, FALSE, <<>>, "", 0, 0)
                               ELSE Op("cut", o, "", <<>>, FALSE, FALSE, <<>>, d, a, b))
Emit == Len(hist) = MaxOps => PrintT(<<"CASE", ToJson([layout |-> Layout, len |-> BaseLen, ops |-> hist])>>)
View == heap

\* masks stay within their variable; bounds hide at least what their variable was told to hide
InRange == \A o \in 1..Len(heap) : \A n \in Names : heap[o].mask[n].at \subseteq Pos(heap[o].len, n)
\* an operation on one collection leaves all others alone
Isolated == [][\A o \in 1..Len(heap) : heap'[o] # heap[o] => hist'[Len(hist')].obj = o]_<<heap, hist>>
\* with an update nothing hidden is revealed
NeverReveals == [][LET op == hist'[Len(hist')] IN
    (op.update /\ op.op \in {"set", "clear", "spread"}) =>
        \A o \in 1..Len(heap) : \A n \in Names : heap[o].mask[n].at \subseteq heap'[o].mask[n].at]_<<heap, hist>>
\* without one, only variables on the very same dimensions may be revealed
RevealsOnlyTwins == [][LET op == hist'[Len(hist')] IN
    op.op \in {"set", "clear", "spread"} =>
        \A o \in 1..Len(heap) : \A n \in Names : Dims(n) # Dims(op.var) => heap[o].mask[n].at \subseteq heap'[o].mask[n].at]_<<heap, hist>>
\* a cascade hides exactly the positions that line up
Exactly == [][LET op == hist'[Len(hist')] IN
    (op.op = "set" /\ op.cascade) => \A n \in Names \ {op.var} :
        LET before == heap[op.obj].mask[n].at  after == heap'[op.obj].mask[n].at IN
        /\ Shared(n, op.var) = {} => after \subseteq before \cup
              UNION {Reach(heap[op.obj].len, t, n, heap'[op.obj].mask[t].at) : t \in {t \in Names : V(t).bounds = n}}
        /\ Shared(n, op.var) # {} => Reach(heap[op.obj].len, op.var, n, heap'[op.obj].mask[op.var].at) \subseteq after]_<<heap, hist>>

----------------------------------------------------------------------------
ObsOf(o, name) == LET ks == {k \in 1..Len(o) : o[k].name = name} IN
    IF ks = {} THEN [name |-> "", at |-> <<>>, vals |-> <<>>, shown |-> <<>>, ok |-> FALSE] ELSE o[CHOOSE k \in ks : TRUE]
RECURSIVE HeapAt(_, _, _)
HeapAt(h, ops, k) == IF k = 0 THEN h ELSE HeapAt(Step(h, Head(ops)), Tail(ops), k - 1)
ObjFail(o, x, tag) == UNION {LET g == ObsOf(o, n) IN Broken(<<
    <<tag \o "present:" \o n, g.name = n>>,
    <<tag \o "hidden-exactly:" \o n, Rng(g.at) = x.mask[n].at>>,
    <<tag \o "shown-as-masked:" \o n, g.shown = g.at>>,
    <<tag \o "mask-shape-and-values-untouched:" \o n, g.ok>> >>) : n \in Names}
RECURSIVE Walk(_, _, _)
Walk(h, ops, states) == IF ops = <<>> THEN {}
    ELSE LET nh == Step(h, Head(ops)) s == Head(states) IN
         UNION {ObjFail(s[k], nh[k], IF k = Head(ops).obj \/ k > Len(h) THEN Head(ops).op \o "-" ELSE Head(ops).op \o "-elsewhere-") : k \in 1..Len(nh)}
         \cup Walk(nh, Tail(ops), Tail(states))
Fail(r) == IF ~r.ok THEN {"call-succeeds:" \o r.err}
           ELSE IF r.kind = "history" THEN Walk(<<Base>>, r.ops, r.states)
           ELSE IF r.kind = "fill" THEN Broken(<<
                <<"values-equal-to-fill-are-hidden-on-request", Rng(r.at) = {k \in 1..Len(r.vals) : r.vals[k] = r.fill}>>,
                <<"values-kept", r.after = r.vals>>, <<"length", r.n = Len(r.vals)>> >>)
           ELSE Broken(<<   \* assigning into a window of a variable
                <<"values", \A k \in 1..Len(r.after) : r.after[k] = IF k \in (r.a + 1)..r.b THEN r.put[k - r.a] ELSE r.vals[k]>>,
                <<"mask", \A k \in 1..Len(r.after) :
                    (r.maskafter[k] = 1) = (IF k \in (r.a + 1)..r.b /\ r.hasput THEN r.putmask[k - r.a] = 1 ELSE r.mask[k] = 1)>>,
                <<"source-untouched", r.putafter = r.put /\ r.putmaskafter = r.putmask>> >>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ heap = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<heap, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
