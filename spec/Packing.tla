---- MODULE Packing ----
(* Geometries as coordinate arrays (S05): nodes, and per element the numbers of its nodes, parts kept apart by a break. *)
(* A ring is a sequence of points <<x, y>> (first point not repeated); a part is [ring, holes]; an element is a          *)
(* sequence of parts.                                                                                                    *)
EXTENDS Judge, SequencesExt
CONSTANTS MaxE, Small
VARIABLES q, nodes, conn, pos, i, done
vars == <<q, nodes, conn, pos, i, done>>

\* ---- geometry of rings ----
Cyc(r, k) == r[((k - 1) % Len(r)) + 1]
Area2(r) == SumSeq([k \in 1..Len(r) |-> Cyc(r, k)[1] * Cyc(r, k + 1)[2] - Cyc(r, k + 1)[1] * Cyc(r, k)[2]])
Ccw(r) == IF Area2(r) < 0 THEN Reverse(r) ELSE r
Rotations(r) == {[k \in 1..Len(r) |-> Cyc(r, k + s)] : s \in 0..(Len(r) - 1)}
SameRing(a, b) == Len(a) = Len(b) /\ Ccw(a) \in Rotations(Ccw(b))
Crosses(a, b, p) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ LET d == b[2] - a[2] IN IF d > 0 THEN (p[1] - a[1]) * d < (p[2] - a[2]) * (b[1] - a[1]) ELSE (p[1] - a[1]) * d > (p[2] - a[2]) * (b[1] - a[1])
InRing(r, p) == Cardinality({k \in 1..Len(r) : Crosses(r[k], Cyc(r, k + 1), p)}) % 2 = 1
InPart(g, p) == InRing(g.ring, p) /\ \A h \in 1..Len(g.holes) : ~InRing(g.holes[h], p)
PartArea(g) == Area2(Ccw(g.ring)) - SumSeq([h \in 1..Len(g.holes) |-> Area2(Ccw(g.holes[h]))])

\* ---- packing: one ring after the other ----
IndexIn(ns, p) == CHOOSE k \in 1..Len(ns) : ns[k] = p
RECURSIVE AddNodes(_, _, _)
AddNodes(ns, pts, pk) == IF pts = <<>> THEN [nodes |-> ns, at |-> <<>>]
    ELSE LET old == pk /\ \E k \in 1..Len(ns) : ns[k] = pts[1]
             ns2 == IF old THEN ns ELSE Append(ns, pts[1])
             rest == AddNodes(ns2, Tail(pts), pk)
         IN [nodes |-> rest.nodes, at |-> <<IF old THEN IndexIn(ns, pts[1]) ELSE Len(ns2)>> \o rest.at]
Closed(r, rep) == IF rep THEN Append(r, r[1]) ELSE r
RECURSIVE CutAt(_, _, _)
CutAt(s, b, cur) == IF s = <<>> THEN <<cur>> ELSE IF s[1] = b THEN <<cur>> \o CutAt(Tail(s), b, <<>>) ELSE CutAt(Tail(s), b, Append(cur, s[1]))
Pieces(c, b) == IF c = <<>> THEN <<>> ELSE CutAt(c, b, <<>>)
DropClose(r) == IF Len(r) > 1 /\ r[1] = r[Len(r)] THEN SubSeq(r, 1, Len(r) - 1) ELSE r
InRange(c, b, s, n) == \A k \in 1..Len(c) : c[k] = b \/ (c[k] >= s /\ c[k] < s + n)
Unpack(c, ns, b, s) == LET P == Pieces(c, b) IN [k \in 1..Len(P) |-> DropClose([m \in 1..Len(P[k]) |-> ns[P[k][m] - s + 1]])]

\* the packing machine over small collections
SmallRings == <<<< <<0, 0>>, <<1, 0>>, <<0, 1>> >>, << <<1, 0>>, <<1, 1>>, <<0, 1>> >>, << <<0, 0>>, <<0, 1>>, <<1, 0>> >>, << <<2, 1>>, <<1, 1>>, <<1, 0>>, <<2, 0>> >> >>
Elems == UNION {[1..k -> 1..Small] : k \in 1..2}
Init == /\ q \in [elems : UNION {[1..n -> Elems] : n \in 1..MaxE}, start : 0..1, pack : BOOLEAN, rep : BOOLEAN, mbv : {-8, -1}]
        /\ nodes = <<>> /\ conn = <<>> /\ pos = <<1, 1>> /\ i = 0 /\ done = FALSE
Step == /\ pos[1] <= Len(q.elems)
        /\ LET e == q.elems[pos[1]]
               a == AddNodes(nodes, Closed(Ccw(SmallRings[e[pos[2]]]), q.rep), q.pack)
               c == [k \in 1..Len(a.at) |-> a.at[k] - 1 + q.start]
           IN /\ nodes' = a.nodes
              /\ conn' = IF pos[2] = 1 THEN Append(conn, c) ELSE [conn EXCEPT ![pos[1]] = @ \o <<q.mbv>> \o c]
              /\ pos' = IF pos[2] < Len(e) THEN <<pos[1], pos[2] + 1>> ELSE <<pos[1] + 1, 1>>
        /\ UNCHANGED <<q, i, done>>
Next == Step
Laws == /\ \A e \in 1..Len(conn) : InRange(conn[e], q.mbv, q.start, Len(nodes))
        /\ q.pack => Cardinality(Rng(nodes)) = Len(nodes)
        /\ \A e \in 1..Len(conn) : LET R == Unpack(conn[e], nodes, q.mbv, q.start) IN
             \A k \in 1..Len(R) : SameRing(R[k], SmallRings[q.elems[e][k]]) /\ Area2(R[k]) > 0
        /\ pos[1] > Len(q.elems) => \A e \in 1..Len(conn) : Len(Unpack(conn[e], nodes, q.mbv, q.start)) = Len(q.elems[e])

\* ---- random collections ----
R4(a, b, c, d) == << <<a, b>>, <<c, b>>, <<c, d>>, <<a, d>> >>
Shapes == <<
  [ring |-> R4(0, 0, 12, 12), holes |-> <<R4(1, 1, 4, 4), << <<6, 1>>, <<10, 1>>, <<8, 5>> >>, R4(2, 7, 5, 10), R4(8, 8, 11, 11)>>],
  [ring |-> << <<0, 0>>, <<12, 0>>, <<0, 12>> >>, holes |-> <<R4(1, 1, 3, 3), R4(5, 1, 8, 2), R4(1, 5, 2, 9)>>],
  [ring |-> << <<0, 0>>, <<12, 0>>, <<12, 5>>, <<5, 5>>, <<5, 12>>, <<0, 12>> >>, holes |-> <<R4(1, 7, 4, 10), R4(7, 1, 10, 4)>>],
  [ring |-> << <<0, 0>>, <<12, 0>>, <<12, 12>>, <<8, 12>>, <<8, 4>>, <<4, 4>>, <<4, 12>>, <<0, 12>> >>, holes |-> <<R4(1, 6, 3, 10), R4(9, 6, 11, 10), R4(5, 1, 7, 3)>>],
  [ring |-> << <<6, 0>>, <<12, 6>>, <<6, 12>>, <<0, 6>> >>, holes |-> << << <<5, 5>>, <<7, 5>>, <<6, 8>> >> >>],
  [ring |-> << <<3, 0>>, <<9, 0>>, <<12, 3>>, <<12, 9>>, <<9, 12>>, <<3, 12>>, <<0, 9>>, <<0, 3>> >>, holes |-> << << <<3, 3>>, <<9, 3>>, <<9, 9>>, <<7, 9>>, <<7, 5>>, <<5, 5>>, <<5, 9>>, <<3, 9>> >> >>],
  [ring |-> << <<0, 0>>, <<12, 0>>, <<12, 12>>, <<10, 12>>, <<10, 4>>, <<7, 4>>, <<7, 12>>, <<5, 12>>, <<5, 4>>, <<2, 4>>, <<2, 12>>, <<0, 12>> >>, holes |-> <<>>]>>
Pick(S) == RandomElement(S)
Move(r, ox, oy) == [k \in 1..Len(r) |-> <<r[k][1] + ox, r[k][2] + oy>>]
Turn(r, s, back) == LET t == [k \in 1..Len(r) |-> Cyc(r, k + s)] IN IF back THEN Reverse(t) ELSE t
Part(k, ox, oy, holes, z) == LET t == Shapes[Pick(1..(7 + z))] IN
    [ring |-> Move(Turn(t.ring, Pick(0..(5 + z)), Pick(1..(2 + z)) = 1), ox + 13 * (k - 1), oy),
     holes |-> IF ~holes THEN <<>> ELSE LET hs == SelectSeq([h \in 1..Len(t.holes) |-> IF Pick(1..(2 + z)) = 1 THEN h ELSE 0], LAMBDA h : h > 0)
                                        IN [h \in 1..Len(hs) |-> Move(t.holes[hs[h]], ox + 13 * (k - 1), oy)]]
Elem(parts, holes, z) == LET ox == <<0, 12, 5>>[Pick(1..(3 + z))]  oy == <<0, 12, 7>>[Pick(1..(3 + z))] IN TLCEval([k \in 1..parts |-> Part(k, ox, oy, holes /\ Pick(1..(2 + z)) = 1, z)])
GenInit == q = <<>> /\ nodes = <<>> /\ conn = <<>> /\ pos = <<>> /\ i = 0 /\ done = FALSE
Gen(z) == IF z < 0 THEN <<>> ELSE
    LET kind == <<"polygon", "multi", "mixed", "mixed", "point">>[Pick(1..(5 + z))]
        n == Pick(1..(4 + z))
        holes == kind # "point" /\ Pick(1..(5 + z)) <= 2
        masked == TLCEval(SelectSeq([k \in 1..n |-> IF n > 1 /\ Pick(1..(3 + z)) = 1 THEN k ELSE 0], LAMBDA k : k > 0))
        mk == IF Len(masked) = n \/ Pick(1..(2 + z)) = 1 THEN <<>> ELSE masked
    IN TLCEval([kind |-> kind, elems |-> TLCEval([e \in 1..n |-> Elem(IF kind = "polygon" \/ (kind = "mixed" /\ Pick(1..(2 + z)) = 1) THEN 1 ELSE Pick(1..(3 + z)), holes, z)]),
         pts |-> TLCEval([e \in 1..n |-> <<Pick(0..(20 + z)), Pick(0..(20 + z))>>]), masked |-> mk, none |-> Pick(1..(2 + z)) = 1,
         start |-> Pick(0..(1 + z)), pack |-> Pick(1..(3 + z)) > 1, rep |-> Pick(1..(3 + z)) = 1, max |-> <<"none", "none", "exact", "larger", "smaller">>[Pick(1..(5 + z))],
         mbv |-> Pick({0, 0 - 5, 0 - 100}), split |-> holes /\ Pick(1..(6 + z)) > 1, thr |-> IF kind # "point" /\ Pick(1..(4 + z)) = 1 THEN Pick(4..(9 + z)) ELSE 0,
         z |-> Pick(1..(4 + z)) = 1, file |-> <<"none", "ugrid", "esmf">>[Pick(1..(3 + z))], lazy |-> Pick(1..(3 + z)) = 1, source |-> Pick(1..(4 + z)) = 1,
         sub |-> LET m == Pick(0..(3 + z)) IN IF m > n THEN <<>> ELSE TLCEval(SelectSeq([e \in 1..n |-> IF Pick(1..(2 + z)) = 1 THEN e ELSE 0], LAMBDA e : e > 0))])
GenNext == ~done /\ done' = TRUE /\ q' = Gen(i) /\ UNCHANGED <<nodes, conn, pos, i>>
Emit == done => PrintT(<<"CASE", ToJson(q)>>)

\* ---- judging; coordinates are hundredths ----
Scale(r) == [k \in 1..Len(r) |-> <<100 * r[k][1], 100 * r[k][2]>>]
Big(g) == [ring |-> Scale(g.ring), holes |-> [h \in 1..Len(g.holes) |-> Scale(g.holes[h])]]
Whole(Q) == Q.thr = 0 /\ \A e \in 1..Len(Q.elems) : \A k \in 1..Len(Q.elems[e]) : Q.elems[e][k].holes = <<>>
HasHole(E) == \E k \in 1..Len(E) : E[k].holes # <<>>
IsMasked(Q, e) == e \in Rng(Q.masked)
XY(r) == [k \in 1..Len(r) |-> <<r[k][1], r[k][2]>>]
ZOk(Q, r) == \A k \in 1..Len(r) : Len(r[k]) = (IF Q.z THEN 3 ELSE 2) /\ (Q.z => r[k][3] = (r[k][1] + 2 * r[k][2]) % 500)
Probes(g) == {<<x, y>> : x \in {g.ring[1][1] - 1200 + 233 * k : k \in 0..10}, y \in {g.ring[1][2] - 1200 + 291 * k : k \in 0..8}}
\* got is a sequence of [ring, holes]
SameElem(Q, E, got) == IF Whole(Q)
    THEN Len(got) = Len(E) /\ \A k \in 1..Len(E) : got[k].holes = <<>> /\ SameRing(XY(got[k].ring), Scale(E[k].ring)) /\ ZOk(Q, got[k].ring)
    ELSE LET W == [k \in 1..Len(E) |-> Big(E[k])]
             G == [k \in 1..Len(got) |-> [ring |-> XY(got[k].ring), holes |-> [h \in 1..Len(got[k].holes) |-> XY(got[k].holes[h])]]]
             wa == SumSeq([k \in 1..Len(W) |-> PartArea(W[k])])
             ga == SumSeq([k \in 1..Len(G) |-> PartArea(G[k])])
         IN /\ (wa - ga) * 60 < wa /\ (ga - wa) * 60 < wa
            /\ \A k \in 1..Len(W) : \A p \in Probes(W[k]) :
                 Cardinality({m \in 1..Len(G) : InPart(G[m], p)}) = Cardinality({m \in 1..Len(W) : InPart(W[m], p)})
SameAll(Q, got, which) == Len(got) = Len(which) /\ \A m \in 1..Len(which) : LET e == which[m] IN
    IF IsMasked(Q, e) THEN got[m] = <<>>
    ELSE IF Q.kind = "point" THEN Len(got[m]) = 1 /\ XY(got[m][1].ring) = Scale(<<Q.pts[e]>>) /\ ZOk(Q, got[m][1].ring)
    ELSE SameElem(Q, Q.elems[e], got[m])
AllE(Q) == [e \in 1..Len(Q.elems) |-> e]
ConnOk(r, c, ns, which) == \A m \in 1..Len(which) : LET x == c[m] IN (~IsMasked(r.q, which[m])) =>
    /\ InRange(x, r.mbv, r.start, Len(ns))
    /\ LET P == Pieces(x, r.mbv) IN \A k \in 1..Len(P) : Len(P[k]) >= 3 /\ LET same == ns[P[k][1] - r.start + 1] = ns[P[k][Len(P[k])] - r.start + 1] IN (r.q.rep => same) /\ (same /\ Whole(r.q) => r.q.rep)
    /\ LET U == Unpack(x, ns, r.mbv, r.start) IN
         /\ \A k \in 1..Len(U) : Area2(XY(U[k])) >= 0
         /\ SameElem(r.q, r.q.elems[which[m]], [k \in 1..Len(U) |-> [ring |-> U[k], holes |-> <<>>]])
Used(c, b) == UNION {Rng(c[m]) \ {b} : m \in 1..Len(c)}
Refusable(Q) == Q.kind # "point" /\ \/ (~Q.split /\ \E e \in 1..Len(Q.elems) : HasHole(Q.elems[e]))
                                     \/ Q.max = "smaller"
Fail(r) == {c[1] : c \in {x \in {
    <<"outcome", r.outcome = "done" \/ (r.outcome = "refused" /\ Refusable(r.q))>>,
    <<"holes lost", r.outcome = "done" => r.q.kind = "point" \/ r.q.split \/ \A e \in 1..Len(r.q.elems) : IsMasked(r.q, e) \/ ~HasHole(r.q.elems[e])>>,
    <<"too small", r.outcome = "done" => r.q.kind = "point" \/ r.q.max # "smaller">>,
    <<"connectivity", r.outcome # "done" \/ r.q.kind = "point" \/ (Len(r.conn) = Len(r.q.elems) /\ ConnOk(r, r.conn, r.nodes, AllE(r.q)))>>,
    <<"nodes once", r.outcome # "done" \/ r.q.kind = "point" \/ ~r.q.pack \/ ~Whole(r.q) \/ Cardinality(Rng(r.nodes)) = Len(r.nodes)>>,
    <<"start", r.outcome # "done" \/ r.start = r.q.start>>,
    <<"back", r.outcome # "done" \/ SameAll(r.q, r.back, AllE(r.q))>>,
    <<"again", r.outcome # "done" \/ r.again = r.back>>,
    <<"mask", r.outcome # "done" \/ r.mask = r.q.masked>>,
    <<"data", r.outcome # "done" \/ r.data = AllE(r.q)>>,
    <<"file", r.outcome # "done" \/ r.file = <<>> \/ SameAll(r.q, r.file, AllE(r.q))>>,
    <<"file data", r.outcome # "done" \/ r.file = <<>> \/ r.fdata = AllE(r.q)>>,
    <<"subset", r.outcome # "done" \/ r.sub = <<>> \/ SameAll(r.q, r.sub, r.q.sub)>>,
    <<"subset nodes", r.outcome # "done" \/ r.sub = <<>> \/ r.q.kind = "point" \/ (ConnOk(r, r.subconn, r.subnodes, r.q.sub) /\ Used(r.subconn, r.mbv) = r.start..(r.start + Len(r.subnodes) - 1))>>} : ~x[2]}}
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ q = <<>> /\ nodes = <<>> /\ conn = <<>> /\ pos = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<i, q, nodes, conn, pos>> /\ Report(i, Fail(Trace[i]))
====
