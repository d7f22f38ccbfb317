------------------------------- MODULE Chunks -------------------------------
(* S06.  Splitting a destination grid into chunks, each with the piece of the source grid it needs, writing and merging   *)
(* weights per chunk, and writing chunk results back into a file of the whole grid.  A grid is given by the edges of its  *)
(* cells along either axis, whole numbers; a cell is the set of unit squares it covers; on a globe longitudes are taken   *)
(* modulo its circumference.                                                                                            *)
EXTENDS Judge, SequencesExt, FiniteSetsExt

CONSTANTS MaxN, MaxK, Edge      \* the model: cells and chunks along an axis, reach of the edges

VARIABLES g, left, merged, master, i, done
vars == <<g, left, merged, master, i, done>>
----------------------------------------------------------------------------
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b
Mod(x, m) == IF m = 0 THEN x ELSE x % m
\* the units between two edges, whichever comes first; m is the circumference or zero
Units(a, b, m) == {Mod(u, m) : u \in Lower(a, b)..(Upper(a, b) - 1)}
\* the k-th cell along an axis with edges E (k from 0)
Along(E, k, m) == Units(E[k + 1], E[k + 2], m)
Size(E) == Len(E) - 1
\* the extent of the cells from..until-1
Extent(E, from, until) == LET S == {E[k + 1] : k \in from..until} IN <<Min(S), Max(S)>>
Wide(e, b) == <<e[1] - b, e[2] + b>>

(* A chunk is a pair of index windows <<r0, r1, c0, c1>>, until exclusive.                                              *)
CellsOf(w) == {<<r, c>> : r \in w[1]..(w[2] - 1), c \in w[3]..(w[4] - 1)}
Once(W, ny, nx) == /\ UNION {CellsOf(w) : w \in Rng(W)} = {<<r, c>> : r \in 0..(ny - 1), c \in 0..(nx - 1)}
                   /\ \A a, b \in 1..Len(W) : a = b \/ CellsOf(W[a]) \cap CellsOf(W[b]) = {}
\* source indices along an axis that meet the (widened) extent of the destination's window
Meet(SE, DE, from, until, b, m) == LET x == Wide(Extent(DE, from, until), b)  U == Units(x[1], x[2], m) IN {k \in 0..(Size(SE) - 1) : Along(SE, k, m) \cap U # {}}
\* twice the middle of a cell lies within twice the extent
MidIn(SE, DE, from, until, b) == LET x == Wide(Extent(DE, from, until), b) IN {k \in 0..(Size(SE) - 1) : SE[k + 1] + SE[k + 2] >= 2 * x[1] /\ SE[k + 1] + SE[k + 2] <= 2 * x[2]}

(* Numbering: one-based, row by row; what is the k-th cell of a window in the numbering of the whole grid?             *)
Global(w, k, nx) == LET n == w[4] - w[3] IN (w[1] + (k - 1) \div n) * nx + w[3] + ((k - 1) % n) + 1
ToGlobal(c, t, dnx, snx) == <<Global(c.dst, t[1], dnx), Global(c.src, t[2], snx), t[3]>>

----------------------------------------------------------------------------
(* The model: one axis.  Chunks are cut evenly, source windows chosen, weights are the overlaps, and chunks are worked on *)
(* in any order.                                                                                                        *)
Edges(n) == {e \in [1..(n + 1) -> 0..Edge] : \A k \in 1..n : e[k] < e[k + 1]}
\* even cuts: sizes differ by no more than one, the larger first
Cuts(n, k) == [c \in 1..k |-> LET q == n \div k  r == n % k  s == (c - 1) * q + Lower(c - 1, r) IN <<s, s + q + (IF c <= r THEN 1 ELSE 0)>>]
Overlap(DE, d, SE, s) == Cardinality(Along(DE, d, 0) \cap Along(SE, s, 0))
WindowOf(S) == IF S = {} THEN <<0, 0>> ELSE <<Min(S), Max(S) + 1>>
Chunk(G, c) == [dst |-> <<0, 1, G.cuts[c][1], G.cuts[c][2]>>, src |-> LET w == WindowOf(Meet(G.se, G.de, G.cuts[c][1], G.cuts[c][2], G.buf, 0)) IN <<0, 1, w[1], w[2]>>]
\* weights of a chunk in its own numbering
Own(G, c) == LET K == Chunk(G, c) IN {<<d - K.dst[3] + 1, s - K.src[3] + 1, Overlap(G.de, d, G.se, s)>> :
                <<d, s>> \in {p \in (K.dst[3]..(K.dst[4] - 1)) \X (K.src[3]..(K.src[4] - 1)) : Overlap(G.de, p[1], G.se, p[2]) > 0}}
Whole(G) == {<<d + 1, s + 1, Overlap(G.de, d, G.se, s)>> : <<d, s>> \in {p \in (0..(Size(G.de) - 1)) \X (0..(Size(G.se) - 1)) : Overlap(G.de, p[1], G.se, p[2]) > 0}}
Apply(W, n) == [d \in 1..n |-> MapThenSumSet(LAMBDA t : t[3] * (t[2] + 3), {t \in W : t[1] = d})]
Init == /\ \E n \in 1..MaxN, m \in 1..MaxN, k \in 1..MaxK : k <= n /\ \E de \in Edges(n), se \in Edges(m), b \in 0..1 : g = [de |-> de, se |-> se, cuts |-> Cuts(n, k), buf |-> b]
        /\ left = 1..Len(g.cuts) /\ merged = {} /\ master = [d \in 1..Size(g.de) |-> -1] /\ i = 0 /\ done = FALSE
Work(c) == /\ left' = left \ {c}
           /\ merged' = merged \cup {ToGlobal(Chunk(g, c), t, Size(g.de), Size(g.se)) : t \in Own(g, c)}
           /\ master' = [d \in DOMAIN master |-> IF d - 1 \in g.cuts[c][1]..(g.cuts[c][2] - 1)
                          THEN MapThenSumSet(LAMBDA t : t[3] * (t[2] + Chunk(g, c).src[3] + 3), {t \in Own(g, c) : t[1] = d - g.cuts[c][1]}) ELSE master[d]]
           /\ UNCHANGED <<g, i, done>>
Next == \E c \in left : Work(c)
Laws == /\ Once([c \in 1..Len(g.cuts) |-> <<0, 1, g.cuts[c][1], g.cuts[c][2]>>], 1, Size(g.de))
        /\ left = {} => merged = Whole(g) /\ master = Apply(merged, Size(g.de))
        /\ \A d \in DOMAIN master : (\E c \in left : d - 1 \in g.cuts[c][1]..(g.cuts[c][2] - 1)) <=> master[d] = -1
----------------------------------------------------------------------------
(* Random grids and settings for the real code.                                                                         *)
OneIn(q, n) == RandomElement(1..(n + 0 * q)) = 1
Axis(q, low, n, reg, wide) == LET step == (IF wide THEN 5 ELSE 0) + RandomElement(1..(3 + 0 * q))  D == TLCEval([k \in 1..n |-> IF reg THEN step ELSE RandomElement(1..(4 + 0 * q))])
                        IN TLCEval([k \in 1..(n + 1) |-> low + FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(D, 1, k - 1))])
Turned(q, e) == IF OneIn(q, 4) THEN Reverse(e) ELSE e
\* around the globe in equal steps, starting at low; 36 units
Round(q, low) == LET n == RandomElement({4, 6, 9, 12}) IN [k \in 1..(n + 1) |-> low + (k - 1) * (36 \div n)]
Req(q) == LET globe == OneIn(q, 5)  reg == OneIn(q, 2)  bnd == ~OneIn(q, 5)  wide == OneIn(q, 5) IN
  TLCEval([globe |-> globe, regular |-> reg \/ globe,
   sx |-> IF globe THEN Round(q, 0) ELSE Turned(q, Axis(q, RandomElement(0..(4 + 0 * q)), RandomElement(4..(12 + 0 * q)), reg, wide)),
   sy |-> IF globe THEN Axis(q, -8, RandomElement(2..(6 + 0 * q)), TRUE, FALSE) ELSE Turned(q, Axis(q, RandomElement(0..(4 + 0 * q)), RandomElement(4..(12 + 0 * q)), reg, wide)),
   dx |-> IF globe THEN Round(q, IF OneIn(q, 2) THEN -18 ELSE 0) ELSE Turned(q, Axis(q, RandomElement(4..(6 + 0 * q)), RandomElement(2..(7 + 0 * q)), reg, FALSE)),
   dy |-> IF globe THEN Axis(q, -6, RandomElement(2..(5 + 0 * q)), TRUE, FALSE) ELSE Turned(q, Axis(q, RandomElement(4..(6 + 0 * q)), RandomElement(2..(7 + 0 * q)), reg, FALSE)),
   ky |-> RandomElement(1..(4 + 0 * q)), kx |-> RandomElement(1..(4 + 0 * q)), buf |-> <<-1, -1, 1, 3, 0>>[RandomElement(1..((IF bnd THEN 5 ELSE 4) + 0 * q))],
   opt |-> RandomElement({"auto", "auto", "yes", "no"}), decomp |-> OneIn(q, 4), bounds |-> bnd, curved |-> OneIn(q, 4) /\ ~globe,
   dmask |-> OneIn(q, 4), smask |-> OneIn(q, 4), eager |-> OneIn(q, 2), files |-> OneIn(q, 2), dims |-> <<"yx", "yx", "tyx", "tyx", "ytx", "xy">>[RandomElement(1..(6 + 0 * q))], holes |-> OneIn(q, 3),
   missing |-> OneIn(q, 3), seed |-> RandomElement(1..9999)])
GenInit == g = [ky |-> 0] /\ left = {} /\ merged = {} /\ master = <<>> /\ i = 0 /\ done = FALSE
GenNext == i < 1 /\ i' = 1 /\ g' \in {Req(i)} /\ done' = TRUE /\ UNCHANGED <<left, merged, master>>
Emit == done => PrintT(<<"CASE", ToJson(g)>>)
----------------------------------------------------------------------------
(* Judging.  r.chunks: windows of every chunk, the cells found in its files, and the weights made up for it; r.merged:    *)
(* the merged weights; r.master: the file of the whole grid after chunk results were written back.                       *)
Step(E) == Upper(E[2] - E[1], E[1] - E[2])
BufferOf(r) == IF r.q.buf >= 0 THEN r.q.buf ELSE 2 * Lower(Upper(Step(r.q.sx), Step(r.q.sy)), Upper(Step(r.q.dx), Step(r.q.dy)))
Turn(r) == IF r.q.globe THEN 36 ELSE 0
Inside(S, from, until) == S \subseteq from..(until - 1)
HasBuffer(r) == r.q.buf >= 0 \/ r.q.regular
\* all of these source cells are in the window but for masked ones
Covered(r, c, Y, X) == \A y \in Y, x \in X : (y * Size(r.q.sx) + x + 1) \in Rng(r.smasked)
                         \/ (c.src # <<>> /\ y \in c.src[1]..(c.src[2] - 1) /\ x \in c.src[3]..(c.src[4] - 1))
Needed(r, c) ==   \* the cells that meet the chunk itself are there in any case
  LET w == c.dst IN Covered(r, c, Meet(r.q.sy, r.q.dy, w[1], w[2], 0, 0), Meet(r.q.sx, r.q.dx, w[3], w[4], 0, Turn(r)))
Around(r, c) ==   \* and, with cells compared, those that meet the widened extent; otherwise those with their middle in it
  LET w == c.dst  b == BufferOf(r)
      X == IF r.q.opt = "no" /\ r.q.bounds THEN Meet(r.q.sx, r.q.dx, w[3], w[4], b, Turn(r)) ELSE IF r.q.globe THEN {} ELSE MidIn(r.q.sx, r.q.dx, w[3], w[4], b)
      Y == IF r.q.opt = "no" /\ r.q.bounds THEN Meet(r.q.sy, r.q.dy, w[1], w[2], b, 0) ELSE MidIn(r.q.sy, r.q.dy, w[1], w[2], b) IN
  HasBuffer(r) => Covered(r, c, Y, X)
\* some of the destination lies where there is no source
Outside(r) == \/ \E k \in 0..(Size(r.q.dx) - 1) : Meet(r.q.sx, r.q.dx, k, k + 1, 0, Turn(r)) = {}
              \/ \E k \in 0..(Size(r.q.dy) - 1) : Meet(r.q.sy, r.q.dy, k, k + 1, 0, 0) = {}
Numbers(w, nx) == {r * nx + c + 1 : r \in w[1]..(w[2] - 1), c \in w[3]..(w[4] - 1)}
InOrder(w, nx) == [k \in 1..((w[2] - w[1]) * (w[4] - w[3])) |-> Global(w, k, nx)]
Fail(r) == LET dnx == Size(r.q.dx)  dny == Size(r.q.dy)  snx == Size(r.q.sx)  sny == Size(r.q.sy) IN
  IF r.outcome = "refused" THEN Broken(<<<<"refused", ~r.q.bounds \/ (r.q.buf >= 0 /\ r.q.opt # "no") \/ Outside(r)>>>>)
  ELSE IF r.outcome = "masked" THEN {}   \* a chunk of masked cells only
  ELSE IF r.outcome # "done" THEN Broken(<<<<"done", FALSE>>>>)
  ELSE Broken(<<
    <<"once", Once([k \in 1..Len(r.chunks) |-> r.chunks[k].dst], dny, dnx)>>,
    <<"chunk-count", r.q.decomp \/ Len(r.chunks) = r.q.ky * r.q.kx \/ 2 * r.q.ky > dny \/ 2 * r.q.kx > dnx>>,
    \* how far to look around a chunk is up to the caller when only middles of cells are looked at
    <<"needed", ~r.q.bounds \/ (r.q.buf >= 0 /\ r.q.opt # "no") \/ \A k \in 1..Len(r.chunks) : Needed(r, r.chunks[k])>>,
    <<"around", ~r.q.bounds \/ r.q.curved \/ r.q.globe \/ \A k \in 1..Len(r.chunks) : Around(r, r.chunks[k])>>,
    <<"destination-file", ~r.files \/ \A k \in 1..Len(r.chunks) : r.chunks[k].dfile = InOrder(r.chunks[k].dst, dnx)>>,
    <<"source-file", ~r.files \/ \A k \in 1..Len(r.chunks) : r.chunks[k].src = <<>> \/ r.chunks[k].sfile = InOrder(r.chunks[k].src, snx)>>,
    <<"index", r.index>>,
    <<"single", r.single>>,
    <<"merged", ~r.hasmerged \/ (Len(r.merged) = MapThenSumSet(LAMBDA k : Len(r.chunks[k].w), 1..Len(r.chunks)) /\
        Rng(r.merged) = UNION {{ToGlobal(r.chunks[k], t, dnx, snx) : t \in Rng(r.chunks[k].w)} : k \in 1..Len(r.chunks)})>>,
    <<"written-back", ~r.files \/ (r.master.outcome = "done" => (Len(r.master.got) = Len(r.master.want) /\ \A k \in 1..Len(r.master.got) : r.master.got[k] = r.master.want[k] \/ k \in Rng(r.master.open)))>>,
    <<"writes-back", ~r.files \/ (r.q.dims \in {"yx", "tyx"} => r.master.outcome = "done")>>,
    <<"sources", r.same>>>>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ g = <<>> /\ left = {} /\ merged = {} /\ master = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<i, g, left, merged, master>> /\ Report(i, Fail(Trace[i]))
=============================================================================
