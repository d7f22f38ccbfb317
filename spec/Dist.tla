-------------------------------- MODULE Dist --------------------------------
(* M02.  A collection spread over P processes along one dimension.  What each process holds is the sequence of original *)
(* positions of the dimension; the serial program holds their concatenation.                                            *)
EXTENDS Judge, SequencesExt

CONSTANTS Procs, Sizes, MaxOps, MinEach

VARIABLES lay,           \* sequence over processes of sequences of positions
          serial,        \* what one process would hold
          size, hist, i, done
vars == <<lay, serial, size, hist, i, done>>

UpTo(a, b) == [k \in 1..(IF b > a THEN b - a ELSE 0) |-> a + k - 1]
\* the hand-out of M01: as even as possible over as many processes as get the minimum each (one when there is less)
Share(n, p) == LET q == Max2(1, Min2(p, n \div MinEach)) IN
    [r \in 1..p |-> IF r > q THEN 0 ELSE (n \div q) + (IF r <= n % q THEN 1 ELSE 0)]
Before(sh, r) == SumSeq(SubSeq(sh, 1, r - 1))
Spread(n, p) == LET sh == Share(n, p) IN [r \in 1..p |-> UpTo(Before(sh, r), Before(sh, r) + sh[r])]
Lens(l) == [r \in 1..Len(l) |-> Len(l[r])]
Start(l, r) == SumSeq(SubSeq(Lens(l), 1, r - 1))
Whole(l) == FlattenSeq(l)
\* elements a..b-1 of the whole, on the processes that hold them
CutRange(l, a, b) == [r \in 1..Len(l) |-> LET s == Start(l, r) IN
    SubSeq(l[r], Max2(a - s, 0) + 1, Min2(b - s, Len(l[r])))]
\* every process drops its own elements wherever the mask (over the whole) says so
RECURSIVE KeepAt(_, _)
KeepAt(s, m) == IF s = <<>> THEN <<>> ELSE (IF Head(m) = 1 THEN <<Head(s)>> ELSE <<>>) \o KeepAt(Tail(s), Tail(m))
CutMask(l, m) == [r \in 1..Len(l) |-> KeepAt(l[r], SubSeq(m, Start(l, r) + 1, Start(l, r) + Len(l[r])))]
Apply(l, op) == IF op.op = "range" THEN CutRange(l, op.a, op.b) ELSE CutMask(l, op.m)
ApplySerial(s, op) == IF op.op = "range" THEN SubSeq(s, op.a + 1, op.b) ELSE KeepAt(s, op.m)

Op(k, a, b, m) == [op |-> k, a |-> a, b |-> b, m |-> m]
Init == \E p \in Procs, n \in Sizes : lay = Spread(n, p) /\ serial = UpTo(0, n) /\ size = n /\ hist = <<>> /\ i = 0 /\ done = FALSE
GenInit == \E p \in {RandomElement(Procs)}, n \in {RandomElement(Sizes)} :
    lay = Spread(n, p) /\ serial = UpTo(0, n) /\ size = n /\ hist = <<>> /\ i = 0 /\ done = FALSE
Do(op) == lay' = Apply(lay, op) /\ serial' = ApplySerial(serial, op) /\ hist' = Append(hist, op) /\ UNCHANGED <<size, i, done>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a \in 0..(Len(serial) - 1) : \E b \in (a + 1)..Len(serial) : Do(Op("range", a, b, <<>>))
           \/ \E m \in [1..Len(serial) -> 0..1] : 1 \in Rng(m) /\ Do(Op("mask", 0, 0, m))
GenNext == /\ Len(hist) < MaxOps
    /\ \E k \in {RandomElement(0..2)}, p \in {RandomElement(0..59)}, q \in {RandomElement(0..59)}, m \in {RandomElement([1..24 -> 0..1])} :
       LET n == Len(serial)  a == p % n  b == a + 1 + (q % (n - a)) IN
       IF k > 0 THEN Do(Op("range", a, b, <<>>)) ELSE Do(Op("mask", 0, 0, [j \in 1..n |-> IF j = a + 1 THEN 1 ELSE m[j]]))
Emit == Len(hist) = MaxOps => PrintT(<<"CASE", ToJson([n |-> size, ops |-> hist])>>)
View == <<lay, serial>>

Same == Whole(lay) = serial                       \* nothing lost, doubled or reordered
Nothing == Len(serial) > 0

----------------------------------------------------------------------------
(* Judging.  r.obs[rank][step] = [live, lower, upper, total, at, vals, masks]; values tell every element apart.         *)
RECURSIVE Layouts(_, _)
Layouts(l, ops) == IF ops = <<>> THEN <<l>> ELSE <<l>> \o Layouts(Apply(l, Head(ops)), Tail(ops))
\* a variable [vals, mask, t, nb] over (t x) dimension (x nb): the part at the given positions
RECURSIVE Blocks(_, _, _, _, _)
Blocks(v, n, at, t, nb) == IF t = 0 THEN <<>> ELSE
    LET row == SubSeq(v, 1, n * nb) IN
    FlattenSeq([j \in 1..Len(at) |-> SubSeq(row, at[j] * nb + 1, at[j] * nb + nb)])
    \o Blocks(SubSeq(v, n * nb + 1, Len(v)), n, at, t - 1, nb)
Part(x, at, n) == IF x.dist THEN Blocks(x.vals, n, at, x.t, x.nb) ELSE x.vals
PartM(x, at, n) == IF x.mask = <<>> THEN [k \in 1..Len(Part(x, at, n)) |-> 0]
                   ELSE IF x.dist THEN Blocks(x.mask, n, at, x.t, x.nb) ELSE x.mask
ObsVar(o, nm) == LET ks == {k \in 1..Len(o) : o[k].name = nm} IN
    IF ks = {} THEN [name |-> "", vals |-> <<>>, mask |-> <<>>, type |-> "", bounds |-> ""] ELSE o[CHOOSE k \in ks : TRUE]
VarsFail(r, o, at, tag) == UNION {LET x == r.vars[k] g == ObsVar(o, x.name) IN Broken(<<
    <<tag \o "present:" \o x.name, g.name = x.name>>,
    <<tag \o "values:" \o x.name, g.vals = Part(x, at, r.n)>>,
    <<tag \o "mask:" \o x.name, g.mask = PartM(x, at, r.n)>>,
    <<tag \o "type:" \o x.name, g.type = x.type>>,
    <<tag \o "bounds:" \o x.name, g.bounds = x.bounds>> >>) : k \in 1..Len(r.vars)}
StepTag(r, s) == IF s = 1 THEN "scatter-" ELSE r.ops[s - 1].op \o "-"
SliceFail(r) == LET ls == Layouts(Spread(r.n, r.p), r.ops) IN
    UNION {UNION {LET o == r.obs[w][s] at == ls[s][w] IN
        IF at = <<>> THEN Broken(<< <<StepTag(r, s) \o "reported-empty", ~o.live>> >>)
        ELSE Broken(<< <<StepTag(r, s) \o "reported-live", o.live>>,
                       <<StepTag(r, s) \o "place-in-whole", o.live => (o.lower = Start(ls[s], w) /\ o.upper = Start(ls[s], w) + Len(at))>>,
                       <<StepTag(r, s) \o "size-of-whole", o.live => o.total = Len(Whole(ls[s]))>> >>)
             \cup (IF o.live THEN VarsFail(r, o.vars, at, StepTag(r, s)) ELSE {})
        : s \in 1..Len(ls)} : w \in 1..r.p}
    \cup (IF r.gathered = <<>> THEN {"gathered-somewhere"}
          ELSE VarsFail(r, r.gathered, Whole(ls[Len(ls)]), "gather-"))
    \cup Broken(<< <<"gather-on-root-only", r.gatheredon = 1>> >>)

\* unique values, counting, joining arrays
RECURSIVE SortedSet(_)
SortedSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSet(S \ {m})
ArraysFail(r) == LET all == FlattenSeq(r.data) u == FlattenSeq(r.unique) IN Broken(<<
    <<"unique-each-once", Len(u) = Cardinality(Rng(all)) /\ Rng(u) = Rng(all)>>,
    <<"counted-on", FlattenSeq(r.arange) = [k \in 1..Len(all) |-> r.start + k - 1]>>,
    <<"counted-lengths", \A w \in 1..Len(r.data) : Len(r.arange[w]) = Len(r.data[w])>>,
    <<"joined", r.joined = all>>,
    <<"reindex-is-one-to-one", \A a, b \in 1..Len(all) : (all[a] = all[b]) = (FlattenSeq(r.reindex)[a] = FlattenSeq(r.reindex)[b])>>,
    <<"reindex-contiguous", Rng(FlattenSeq(r.reindex)) = (r.start)..(r.start + Cardinality(Rng(all)) - 1)>>,
    <<"reindex-follows-unique", \A a \in 1..Len(all) : u[FlattenSeq(r.reindex)[a] - r.start + 1] = all[a]>>,
    <<"reindex-lengths", \A w \in 1..Len(r.data) : Len(r.reindex[w]) = Len(r.data[w])>> >>)

\* anything else: the pieces, put together in rank order, are what one process computes
SameFail(r) == Broken([k \in 1..Len(r.fields) |-> <<r.fields[k], r.dist[k] = r.serial[k]>>])
Fail(r) == IF ~r.ok THEN {"completes:" \o r.err}
           ELSE CASE r.kind = "slices" -> SliceFail(r)
                  [] r.kind = "arrays" -> ArraysFail(r)
                  [] r.kind = "same" -> SameFail(r)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ lay = <<>> /\ serial = <<>> /\ size = 0 /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<lay, serial, size, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
