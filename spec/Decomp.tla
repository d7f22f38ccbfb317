------------------------------- MODULE Decomp -------------------------------
(* M01.  The elements 0..n-1 of a dimension are handed out to the processes 0..size-1 as half-open index ranges.     *)
(* The transition system hands out one rank per step; the laws are what every decomposition has to satisfy and are   *)
(* the operators the recorded decompositions of the real code are judged with.                                        *)
EXTENDS Judge

CONSTANTS NMax, SizeMax

\* A decomposition is a sequence of ranges <<lo, hi>>, in rank order; <<-1, -1>> says the rank has nothing.
None == <<-1, -1>>
Members(b) == IF b = None THEN {} ELSE b[1]..(b[2] - 1)
Live(d) == SelectSeq(d, LAMBDA b : b # None)
Count(b) == IF b = None THEN 0 ELSE b[2] - b[1]

WellFormed(d) == \A k \in 1..Len(d) : d[k] = None \/ (0 <= d[k][1] /\ d[k][1] < d[k][2])
Contiguous(n, d) == LET l == Live(d) IN
    /\ (n > 0 => Len(l) > 0) /\ (n = 0 => Len(l) = 0)
    /\ Len(l) > 0 => l[1][1] = 0 /\ l[Len(l)][2] = n
    /\ \A k \in 1..(Len(l) - 1) : l[k][2] = l[k + 1][1]
Covers(n, d) == UNION {Members(d[k]) : k \in 1..Len(d)} = 0..(n - 1)
Disjoint(d) == \A j, k \in 1..Len(d) : j # k => Members(d[j]) \cap Members(d[k]) = {}
Balanced(d) == \A j, k \in 1..Len(d) : Count(d[j]) - Count(d[k]) <= 1
\* processes in excess of the elements, and only those, get nothing; they are the last ones
ExcessLast(n, d) == \A k \in 1..Len(d) : (d[k] = None) <=> (k > n)

\* A fixed split size s: rank r gets s elements starting at r*s, as long as there are any.
SplitRange(n, s, r) == IF r * s >= n THEN None ELSE <<r * s, Min2(n, (r + 1) * s)>>

\* A global selection start..stop-1 seen from a rank holding b, in the rank's own numbering.
Selected(start, stop, n) == {x \in 0..(n - 1) : start <= x /\ x < stop}
BackToGlobal(b, loc) == {b[1] + x : x \in Members(loc)}

----------------------------------------------------------------------------
(* the decomposition as a process *)
VARIABLES n, size, given, i, done
vars == <<n, size, given, i, done>>

Quota(nn, ss, r) == (nn \div ss) + (IF r < nn % ss THEN 1 ELSE 0)
NextFree == LET l == Live(given) IN IF Len(l) = 0 THEN 0 ELSE l[Len(l)][2]

Init == /\ n \in 0..NMax /\ size \in 1..SizeMax
        /\ given = <<>> /\ i = 0 /\ done = FALSE
HandOut == /\ Len(given) < size
           /\ LET q == Quota(n, size, Len(given)) IN
              given' = Append(given, IF q = 0 THEN None ELSE <<NextFree, NextFree + q>>)
           /\ UNCHANGED <<n, size, i, done>>
Next == HandOut
Complete == Len(given) = size

LawsHold == Complete => /\ WellFormed(given) /\ Contiguous(n, given) /\ Covers(n, given)
                        /\ Disjoint(given) /\ Balanced(given) /\ ExcessLast(n, given)
NothingTwice == Disjoint(given)
\* the local pieces of any global selection give the selection back
LocalPiece(start, stop, b) == LET m == Members(b) \cap Selected(start, stop, n) IN {x - b[1] : x \in m}
SelectionsCompose == Complete =>
    \A start, stop \in 0..n :
        UNION {{given[k][1] + x : x \in LocalPiece(start, stop, given[k])} : k \in {k \in 1..size : given[k] # None}}
            = Selected(start, stop, n)

----------------------------------------------------------------------------
(* judging the real decompositions *)
JInit == /\ i \in 1..Len(Trace) /\ done = FALSE /\ n = 0 /\ size = 0 /\ given = <<>>

BoundsFail(r) == Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"ranks-reported", Len(r.d) = r.size>>,
    <<"well-formed", WellFormed(r.d)>>,
    <<"contiguous", Contiguous(r.n, r.d)>>,
    <<"covers", Covers(r.n, r.d)>>,
    <<"disjoint", Disjoint(r.d)>>,
    <<"balanced", Balanced(r.d)>>,
    <<"excess-gets-nothing", ExcessLast(r.n, r.d)>>,
    <<"out-of-range-rank-gets-nothing", \A k \in 1..Len(r.beyond) : r.beyond[k] = None>> >>)

SplitFail(r) == Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"split-range", \A k \in 1..r.size : r.d[k] = SplitRange(r.n, r.split, k - 1)>> >>)

G2LFail(r) == Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"local-in-range", \A k \in 1..Len(r.d) : r.loc[k] # None /\ r.loc[k][1] < r.loc[k][2] =>
                          /\ r.d[k] # None /\ 0 <= r.loc[k][1] /\ r.loc[k][2] <= Count(r.d[k])>>,
    <<"pieces-compose", UNION {BackToGlobal(r.d[k], r.loc[k]) : k \in {k \in 1..Len(r.d) : r.d[k] # None /\ r.loc[k] # None}}
                          = Selected(r.start, r.stop, r.n)>> >>)

\* Sub-slices of an array: every cell of the shape is in exactly one of the tuples of ranges.
Cells(shape) == IF Len(shape) = 1 THEN {<<x>> : x \in 0..(shape[1] - 1)}
                ELSE {<<x, y>> : x \in 0..(shape[1] - 1), y \in 0..(shape[2] - 1)}
InSlices(c, s) == \A k \in 1..Len(c) : s[k][1] <= c[k] /\ c[k] < s[k][2]
NdFail(r) == Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"each-cell-once", \A c \in Cells(r.shape) : Cardinality({k \in 1..Len(r.slices) : InSlices(c, r.slices[k])}) = 1>>,
    <<"number-of-pieces", r.ok => Len(r.slices) = ProdSeq(r.splits)>> >>)
OptFail(r) == Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"one-split-per-axis", Len(r.splits) = Len(r.shape)>>,
    <<"split-fits-axis", \A k \in 1..Len(r.splits) : 1 <= r.splits[k] /\ r.splits[k] <= r.shape[k]>>,
    <<"no-more-pieces-than-processes", ProdSeq(r.splits) <= r.size>> >>)

\* A distribution of several dimensions: rs[rank][dim] is the record of what the rank holds of the dimension.
Range(x) == IF x.empty THEN None ELSE <<x.lo, x.hi>>
Column(r, k) == [p \in 1..r.size |-> Range(r.rs[p][k])]
Distributed(r) == {k \in 1..Len(r.dims) : r.dims[k].dist}
Longest(r) == {k \in Distributed(r) : \A j \in Distributed(r) : r.dims[j].n <= r.dims[k].n}
\* ranks allowed to take part: at least `min` elements each when there is more than one process
Active(r, k) == LET nn == r.dims[k].n IN
    IF r.size = 1 THEN 1 ELSE Max2(1, Min2(Min2(r.size, nn), nn \div r.min))
Whole(r, k) == \A p \in 1..r.size : ~r.rs[p][k].empty /\ Range(r.rs[p][k]) = <<0, r.dims[k].n>>
Partitioned(r, k) == LET c == Column(r, k) m == Active(r, k) a == SubSeq(c, 1, m) IN
    /\ WellFormed(c) /\ Contiguous(r.dims[k].n, c) /\ Covers(r.dims[k].n, c) /\ Disjoint(c)
    /\ Balanced(a) /\ \A p \in 1..r.size : p > m => c[p] = None
DistFail(r) == Broken(<<
    <<"call-succeeds", r.ok>>,
    <<"no-element-lost", r.ok => \A k \in 1..Len(r.dims) : r.dims[k].n > 0 =>
                           UNION {Members(Column(r, k)[p]) : p \in 1..r.size} = 0..(r.dims[k].n - 1)>>,
    <<"exactly-one-longest-partitioned", r.ok /\ Distributed(r) # {} =>
                           \E k \in Longest(r) : /\ Partitioned(r, k)
                                                 /\ \A j \in 1..Len(r.dims) : j # k => Whole(r, j)
                                                 /\ \A j \in 1..Len(r.dims) : \A p \in 1..r.size : r.rs[p][j].dist = (j = k)>>,
    <<"undistributed-keep-extent", r.ok => \A k \in 1..Len(r.dims) : ~r.dims[k].dist => Whole(r, k)>>,
    <<"length-matches-range", r.ok => \A p \in 1..r.size : \A k \in 1..Len(r.dims) :
                           r.rs[p][k].len = Count(Range(r.rs[p][k]))>>,
    <<"source-positions-follow", r.ok => \A p \in 1..r.size : \A k \in 1..Len(r.dims) : r.dims[k].src # <<>> =>
                           r.rs[p][k].src = IF r.rs[p][k].empty THEN <<>>
                               ELSE SubSeq(r.dims[k].src, r.rs[p][k].lo + 1, r.rs[p][k].hi)>>,
    <<"empty-ranks-reported", r.ok => Rng(r.emptyranks) = {p - 1 : p \in {p \in 1..r.size : \E k \in 1..Len(r.dims) : r.rs[p][k].empty}}>>
    >>)

Fail(r) == CASE r.kind = "bounds" -> BoundsFail(r)
             [] r.kind = "split" -> SplitFail(r)
             [] r.kind = "g2l" -> G2LFail(r)
             [] r.kind = "nd" -> NdFail(r)
             [] r.kind = "opt" -> OptFail(r)
             [] r.kind = "dist" -> DistFail(r)
JNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, size, given, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
