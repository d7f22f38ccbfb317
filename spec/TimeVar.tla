------------------------------- MODULE TimeVar -------------------------------
(* T01.  Time variables: instants in a calendar, held as numbers of some unit after a reference or as dates, with       *)
(* bounds and a mask.  What one reads of them, numbers or dates, always denotes the instants held, whatever was done     *)
(* before.                                                                                                               *)
EXTENDS Judge, Calendar, SequencesExt

CONSTANTS MaxOps, MaxHeap, Cals, Units, Refs, MaxLen, OffDays, OffSecs

VARIABLES heap, hist, i, done

\* an object: calendar, unit in seconds, reference date, instants, mask, bounds (<<>> or one pair each), how each is held
Obj(c, u, r, v, b, s) == [cal |-> c, unit |-> u, ref |-> r, vals |-> v, mask |-> [k \in 1..Len(v) |-> 0], bmask |-> [k \in 1..Len(v) |-> 0], bnds |-> b,
                          store |-> s, bstore |-> s]
Off(o, a) == Minus(a, Inst(o.cal, o.ref))
At(o, x) == Plus(Inst(o.cal, o.ref), x)
Pairs(b) == [k \in 1..Len(b) |-> <<b[k][1], b[k][2]>>]
\* the same numbers read with another reference or calendar
Reread(o, n, vals, st) == IF st = "dates" THEN vals ELSE [k \in 1..Len(vals) |-> At(n, Off(o, vals[k]))]
RereadB(o, n, b, st) == IF st = "dates" THEN b ELSE [k \in 1..Len(b) |-> <<At(n, Off(o, b[k][1])), At(n, Off(o, b[k][2]))>>]
Relabel(o, n) == [n EXCEPT !.vals = Reread(o, n, o.vals, o.store), !.bnds = RereadB(o, n, o.bnds, o.bstore)]
PickSeq(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]
Pick(o, idx) == [o EXCEPT !.vals = PickSeq(@, idx), !.mask = PickSeq(@, idx), !.bmask = PickSeq(@, idx), !.bnds = IF @ = <<>> THEN @ ELSE PickSeq(@, idx)]

Step(h, op) ==
  LET o == h[op.obj]
      upd(x) == [h EXCEPT ![op.obj] = x] IN
  CASE op.op = "pick" -> Append(h, Pick(o, op.idx))
    [] op.op = "copy" -> Append(h, o)
    [] op.op = "look" -> h
    [] op.op = "mask" -> upd([o EXCEPT !.mask = op.mask, !.bmask = [k \in 1..Len(op.mask) |-> Max2(o.bmask[k], op.mask[k])]])   \* what was hidden in the bounds stays hidden
    [] op.op = "setnum" -> upd([o EXCEPT !.vals = [k \in 1..Len(op.offs) |-> At(o, op.offs[k])], !.store = "num"])
    [] op.op = "setdates" -> upd([o EXCEPT !.vals = op.insts, !.store = "dates"])
    [] op.op = "assign" ->      \* the elements op.a.. take the values of another variable of the same label
        upd([o EXCEPT !.vals = [k \in 1..Len(o.vals) |-> IF k \in op.a..(op.a + Len(op.offs) - 1) THEN At(o, op.offs[k - op.a + 1]) ELSE @[k]],
                      !.bnds = [k \in 1..Len(o.bnds) |-> IF k \in op.a..(op.a + Len(op.offs) - 1)
                                                          THEN <<At(o, op.offs[k - op.a + 1]), At(o, op.offs[k - op.a + 1])>> ELSE @[k]]])
    [] op.op = "convert" -> upd([o EXCEPT !.unit = op.unit, !.ref = op.ref, !.store = "num", !.bstore = "num"])
    [] op.op = "relabel" -> upd(Relabel(o, [o EXCEPT !.ref = op.ref]))
    [] op.op = "recal" -> upd(Relabel(o, [o EXCEPT !.cal = op.cal]))
    [] OTHER -> h

----------------------------------------------------------------------------
Rnd(S) == RandomElement(S)
Some(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
OffSet == {<<d, s>> : d \in OffDays, s \in OffSecs}
SeqN(n, rnd, S) == IF rnd THEN {[k \in 1..n |-> RandomElement(S)]} ELSE [1..n -> S]
BaseOp(k, o) == [op |-> k, obj |-> o, idx |-> <<>>, mask |-> <<>>, offs |-> <<>>, insts |-> <<>>, unit |-> 0, ref |-> <<1, 1, 1, 0>>,
                 cal |-> "", a |-> 0]
Kinds == {"pick", "copy", "look", "mask", "setnum", "setdates", "convert", "relabel", "recal", "assign"}
Ops(h, kind, rnd) ==
  UNION {LET o == h[j] n == Len(o.vals) b == BaseOp(kind, j) IN
    CASE kind = "pick" -> {[b EXCEPT !.idx = [k \in 1..(m - l + 1) |-> l + k - 1]] : l \in Some(1..n, rnd), m \in Some(1..n, rnd)}
      [] kind = "mask" -> {[b EXCEPT !.mask = s] : s \in SeqN(n, rnd, {0, 1})}
      [] kind = "setnum" -> {[b EXCEPT !.offs = s] : s \in SeqN(n, rnd, OffSet)}
      [] kind = "setdates" -> {[b EXCEPT !.insts = [k \in 1..n |-> At(o, s[k])]] : s \in SeqN(n, rnd, OffSet)}
      [] kind = "convert" -> {[b EXCEPT !.unit = u, !.ref = r] : u \in Some(Units, rnd), r \in Some(Refs, rnd)}
      [] kind = "relabel" -> {[b EXCEPT !.ref = r] : r \in Some(Refs, rnd)}
      [] kind = "recal" -> {[b EXCEPT !.cal = c] : c \in Some(Cals, rnd)}
      [] kind = "assign" -> {[b EXCEPT !.a = l, !.offs = s] : l \in Some(1..n, rnd), s \in SeqN(1, rnd, OffSet)}
      [] OTHER -> {b} : j \in Some(1..Len(h), rnd)}
Allowed(h, op) ==
  LET o == h[op.obj] IN
  CASE op.op \in {"copy", "pick"} -> Len(h) < MaxHeap /\ (op.op = "pick" => op.idx # <<>>)
    [] op.op = "recal" -> o.store = "num" /\ (o.bnds = <<>> \/ o.bstore = "num")
    \* converting dates to the label they already have may or may not turn them into numbers: what a later relabelling means is then open
    [] op.op = "convert" -> (op.unit = o.unit /\ op.ref = o.ref) => (o.store = "num" /\ (o.bnds = <<>> \/ o.bstore = "num"))
    [] op.op = "assign" -> o.store = "num" /\ (o.bnds = <<>> \/ o.bstore = "num") /\ Len(h) = 1
    [] OTHER -> TRUE
Starts(rnd) ==
  UNION {{Obj(c, u, r, [k \in 1..n |-> Plus(Inst(c, r), s[k])],
              IF wb THEN [k \in 1..n |-> <<Plus(Inst(c, r), s[k]), Plus(Inst(c, r), Plus(s[k], <<1, 3600>>))>>] ELSE <<>>, st)
          : u \in Some(Units, rnd), wb \in Some(BOOLEAN, rnd), st \in Some({"num", "dates"}, rnd), s \in SeqN(n, rnd, OffSet)}
         : c \in Some(Cals, rnd), r \in Some(Refs, rnd), n \in Some(1..MaxLen, rnd)}
Init == \E s \in Starts(FALSE) : heap = <<s>> /\ hist = <<>> /\ i = 0 /\ done = FALSE
Next == /\ Len(hist) < MaxOps
        /\ \E kind \in Kinds : \E op \in Ops(heap, kind, FALSE) :
             Allowed(heap, op) /\ heap' = Step(heap, op) /\ hist' = Append(hist, op)
        /\ UNCHANGED <<i, done>>
View == <<heap, Len(hist)>>
\* every instant is a date of the calendar, numbers denote it, and order is kept
Denotes == \A k \in 1..Len(heap) : LET o == heap[k] IN
   /\ \A a \in Rng(o.vals) : /\ At(o, Off(o, a)) = a
                             /\ LET d == DateTime(o.cal, a) IN GoodDate(o.cal, d) /\ Inst(o.cal, d) = a
   /\ \A a, b \in Rng(o.vals) : Before2(a, b) <=> Before2(Off(o, a), Off(o, b))
   /\ \A a, b \in Rng(o.vals) : Before2(a, b) <=> LexLess(DateTime(o.cal, a), DateTime(o.cal, b))
   /\ Len(o.mask) = Len(o.vals) /\ Len(o.bnds) \in {0, Len(o.vals)}
\* converting leaves the instants alone; looking and copying leave everything alone
ConvertKeeps == [][\A op \in {hist'[Len(hist')]} : op.op \in {"convert", "look", "copy", "pick", "mask"} =>
    \A k \in 1..Len(heap) : heap'[k].vals = heap[k].vals /\ heap'[k].bnds = heap[k].bnds]_<<heap, hist>>
OthersKept == [][\A op \in {hist'[Len(hist')]} : \A k \in 1..Len(heap) : k # op.obj => heap'[k] = heap[k]]_<<heap, hist>>

\* one random behaviour each
GenInit == heap = <<>> /\ hist = <<>> /\ i = 0 /\ done = FALSE
GenNext == IF hist = <<>> THEN \E s \in Starts(TRUE) : heap' = <<s>> /\ hist' = <<s>> /\ UNCHANGED <<i, done>>
           ELSE IF Len(hist) > MaxOps THEN ~done /\ done' = TRUE /\ UNCHANGED <<heap, hist, i>>
           ELSE \E kind \in {RandomElement(Kinds)} : \E op \in Ops(heap, kind, TRUE) :
                  IF Allowed(heap, op) THEN heap' = Step(heap, op) /\ hist' = Append(hist, op) /\ UNCHANGED done /\ i' = i + 1
                  ELSE UNCHANGED <<heap, hist, done>> /\ i' = i + 1
\* dates for the harness to write: it does no calendar arithmetic of its own
Dated(s) == [k \in 1..Len(s.insts) |-> DateTime(s.cal, s.insts[k])]
Shown(o) == [cal |-> o.cal, unit |-> o.unit, ref |-> o.ref, store |-> o.store,
             offs |-> [k \in 1..Len(o.vals) |-> Off(o, o.vals[k])], dates |-> [k \in 1..Len(o.vals) |-> DateTime(o.cal, o.vals[k])],
             boffs |-> [k \in 1..Len(o.bnds) |-> <<Off(o, o.bnds[k][1]), Off(o, o.bnds[k][2])>>],
             bdates |-> [k \in 1..Len(o.bnds) |-> <<DateTime(o.cal, o.bnds[k][1]), DateTime(o.cal, o.bnds[k][2])>>]]
RECURSIVE Told(_, _, _)
Told(h, ops, k) == IF k > Len(ops) THEN <<>>
   ELSE LET op == ops[k] c == h[op.obj].cal IN
        <<op @@ [dates |-> [m \in 1..Len(op.insts) |-> DateTime(c, op.insts[m])]]>> \o Told(TLCEval(Step(h, op)), ops, k + 1)
Emit == IF done THEN PrintT(<<"CASE", ToJson([init |-> Shown(hist[1]), obj |-> hist[1], ops |-> Told(<<hist[1]>>, Tail(hist), 1)])>>) ELSE TRUE

----------------------------------------------------------------------------
\* what was seen of object o: num and dates (and those of the bounds) with MISS where masked
SeenElt(o, a, masked, num, date) ==
   IF masked = 1 THEN num = <<>> /\ date = <<>>
   ELSE Len(num) = 2 /\ Len(date) = 4 /\ num = Off(o, a) /\ GoodDate(o.cal, date) /\ Inst(o.cal, date) = a
SeenObj(o, s) ==
   /\ s.n = Len(o.vals) /\ Len(s.num) = s.n /\ Len(s.dates) = s.n
   /\ \A k \in 1..s.n : SeenElt(o, o.vals[k], o.mask[k], s.num[k], s.dates[k])
   /\ Len(s.bnum) = Len(o.bnds) /\ Len(s.bdates) = Len(o.bnds)
   /\ \A k \in 1..Len(o.bnds) : \A e \in 1..2 : SeenElt(o, o.bnds[k][e], o.bmask[k], s.bnum[k][e], s.bdates[k][e])
   /\ s.cal = o.cal /\ s.unit = o.unit /\ s.ref = o.ref
RECURSIVE Walk(_, _, _, _)
Walk(h, ops, states, k) ==
   IF k > Len(states) THEN {}
   ELSE LET g == TLCEval(IF k = 1 THEN h ELSE Step(h, ops[k - 1])) st == states[k] IN
        (IF st.looked = FALSE THEN {}
         ELSE {<<IF k = 1 THEN "start" ELSE ops[k - 1].op, k, m>> : m \in {m \in 1..Len(g) : m > Len(st.heap) \/ ~SeenObj(g[m], st.heap[m])}})
        \cup Walk(g, ops, states, k + 1)
Hist(r) == IF ~r.ok THEN {<<"failed", r.err>>}
           ELSE IF Len(r.states) # Len(r.ops) + 1 THEN {"steps"}
           ELSE Walk(<<r.obj>>, r.ops, r.states, 1)

\* plain conversions of one array
Conv(r) == IF ~r.ok THEN {<<"failed", r.err>>} ELSE
  LET n == Len(r.offs)
      base == Inst(r.cal, r.ref)
      want(k) == Plus(base, r.offs[k]) IN
  Broken(<<
    <<"dates", Len(r.dates) = n /\ \A k \in 1..n : GoodDate(r.cal, r.dates[k]) /\ Inst(r.cal, r.dates[k]) = want(k)>>,
    <<"back", Len(r.back) = n /\ \A k \in 1..n : r.back[k] = r.offs[k]>>,
    <<"again", r.again = r.dates>>,
    <<"order", \A a, b \in 1..n : Before2(r.offs[a], r.offs[b]) = r.less[a][b]>> >>)
\* whole months after a reference
Months(r) == IF ~r.ok THEN {<<"failed", r.err>>} ELSE
  LET n == Len(r.offs) IN
  Broken(<<
    <<"dates", Len(r.dates) = n /\ \A k \in 1..n : LET w == MonthsAfter(r.ref[1], r.ref[2], r.offs[k]) IN
                  r.dates[k] = <<w[1], w[2], r.day, 0>> >>,
    <<"back", r.back = r.offs>> >>)
\* hidden elements stay hidden, the others denote what they denoted
Hidden(r) == IF ~r.ok THEN {<<"failed", r.err>>} ELSE
  LET n == Len(r.offs)
      inst(k) == Plus(Inst(r.cal, r.ref), r.offs[k])
      isdate(d, k) == IF r.mask[k] = 1 THEN d = <<>> ELSE Len(d) = 4 /\ GoodDate(r.cal, d) /\ Inst(r.cal, d) = inst(k) IN
  Broken(<<
    <<"dates", Len(r.dates) = n /\ \A k \in 1..n : isdate(r.dates[k], k)>>,
    <<"converted", Len(r.conv) = n /\ \A k \in 1..n : IF r.mask[k] = 1 THEN r.conv[k] = <<>> ELSE r.conv[k] = Minus(inst(k), Inst(r.cal, r.toref))>>,
    <<"dates-converted", Len(r.convdates) = n /\ \A k \in 1..n : isdate(r.convdates[k], k)>> >>)
Fail(r) == CASE r.kind = "hidden" -> Hidden(r) [] r.kind = "history" -> Hist(r) [] r.kind = "convert" -> Conv(r) [] r.kind = "months" -> Months(r) [] OTHER -> {"unknown"}

JInit == i \in 1..Len(Trace) /\ done = FALSE /\ heap = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<heap, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
