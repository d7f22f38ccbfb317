------------------------------- MODULE Series -------------------------------
(* C02.  Counts, spells, windows and indices of series.  Every location has its own series of integers, MISS where      *)
(* masked; groups are sequences of steps.  What is computed of a location is a function of its own unmasked values.      *)
EXTENDS Sample, Calendar, FiniteSetsExt

CONSTANTS MaxN, Vals

\* in one pass over a series: steps seen, the run going on, the runs over; and a case being made
VARIABLES ser, seen, run, over, case, i, done
vars == <<ser, seen, run, over, case, i, done>>
----------------------------------------------------------------------------
Holds(op, v, thr) == CASE op = "gt" -> 2 * v > thr [] op = "gte" -> 2 * v >= thr [] op = "lt" -> 2 * v < thr [] op = "lte" -> 2 * v <= thr   \* thr counts halves
Occurs(s, op, thr) == [k \in 1..Len(s) |-> s[k] # MISS /\ Holds(op, s[k], thr)]
Count(o) == Cardinality({k \in 1..Len(o) : o[k]})
\* the lengths of the runs of occurrences, in order
Begins(o) == SelectSeq([k \in 1..Len(o) |-> k], LAMBDA k : o[k] /\ (k = 1 \/ ~o[k - 1]))
RunAt(o, k) == Min({m \in k..Len(o) : m = Len(o) \/ ~o[m + 1]}) - k + 1
Runs(o) == LET b == Begins(o) IN [k \in 1..Len(b) |-> RunAt(o, b[k])]
Spells(o) == IF Runs(o) = <<>> THEN <<0>> ELSE Runs(o)
Freqs(o) == LET b == Spells(o) IN {<<x, Cardinality({k \in 1..Len(b) : b[k] = x})>> : x \in Rng(b)}
Half(k) == (k - 1) \div 2
Window(s, t, k) == Unmasked(SubSeq(s, Max2(1, t - Half(k)), Min2(Len(s), t + Half(k))))
Full(s, t, k) == t - Half(k) >= 1 /\ t + Half(k) <= Len(s)
\* the convolution at t: terms v[j] * s[t - j + off]; "valid" begins where all of v is used, "same" is centred
Off(v, mode) == IF mode = "valid" THEN Len(v) ELSE (Len(v) - 1) \div 2 + 1
Hit(s, v, t, mode) == {j \in 1..Len(v) : (t - j + Off(v, mode)) \in 1..Len(s)}
Conv(s, v, t, mode) ==
  LET hit == Hit(s, v, t, mode) at(j) == s[t - j + Off(v, mode)] IN
  IF (mode = "valid" /\ t > Len(s) - Len(v) + 1) \/ \E j \in hit : at(j) = MISS THEN <<>>
  ELSE <<SumSeq([j \in 1..Len(v) |-> IF j \in hit THEN v[j] * at(j) ELSE 0]), 1>>

\* freezing and thawing of a daily series (halves of degrees for the threshold): x[1] is an artificial 0 before the series
Cum(x, k) == SumSeq(SubSeq(x, 1, k))
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Abs(a) == IF a < 0 THEN -a ELSE a
Crossings(x) == {1} \cup {k \in 1..(Len(x) - 1) : (x[k] >= 0) # (x[k + 1] >= 0)}
RECURSIVE Events(_, _, _, _, _)      \* the sign and place of the last event, the number of events
Events(x, cs, thr, last, n) ==
  IF cs = {} THEN n
  ELSE LET c == Min(cs) rest == cs \ {c} hits == {w \in c..Len(x) : 2 * Abs(Cum(x, w) - Cum(x, c)) >= thr} IN
       IF c - 1 < last[2] \/ hits = {} THEN Events(x, rest, thr, last, n)
       ELSE LET w == Min(hits) s == Sgn(Cum(x, w) - Cum(x, c)) IN
            IF s # last[1] THEN Events(x, rest, thr, <<s, w - 1>>, n + 1) ELSE Events(x, rest, thr, last, n)
\* the changes between frozen and thawed: one less than the events, none when there is no event
FreezeThaw(b, thr) == LET x == <<0>> \o b IN Max2(0, Events(x, Crossings(x), thr, <<0, 0>>, 0) - 1)

\* heat index of temperatures and humidities in tens, in units of 1e-5, each term rounded
Heat(t, r) == -4237900 + 2049015 * t + 10143331 * r - 2247554 * t * r - 68378 * t * t - 548172 * r * r + 122874 * t * t * r + 85282 * t * r * r - 1990 * t * t * r * r
HeatHidden(t, r) == t = MISS \/ r = MISS \/ t < 8 \/ r < 4

\* percentiles of calendar days: dates <<y, m, d>>; the window counts days from the calendar day in the same or a neighbouring year
DayNo(y, m, d) == DayNum("proleptic_gregorian", y, m, d)
LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
InWindow(dt, m, d, w, onlyleap) ==
  LET n == DayNo(dt[1], dt[2], dt[3]) IN
  IF m = 2 /\ d = 29
  THEN IF LeapYear(dt[1]) THEN 2 * Abs(n - DayNo(dt[1], 2, 29)) <= w
       ELSE ~onlyleap /\ LET x == n - DayNo(dt[1], 2, 28) IN 2 * x <= w /\ 2 * x >= 2 - w
  ELSE \E y \in {dt[1] - 1, dt[1], dt[1] + 1} : 2 * Abs(n - DayNo(y, m, d)) <= w
DaySample(s, dates, m, d, w, onlyleap) == Unmasked([k \in 1..Len(s) |-> IF InWindow(dates[k], m, d, w, onlyleap) THEN s[k] ELSE MISS])

----------------------------------------------------------------------------
\* the definitions agree with what one pass over the series finds
Ops == {"gt", "gte", "lt", "lte"}
Thr == {-1, 0, 2}
SInit == /\ \E n \in 1..MaxN : ser \in [1..n -> Vals \cup {MISS}]
         /\ seen = 0 /\ run = [o \in Ops |-> [h \in Thr |-> 0]] /\ over = [o \in Ops |-> [h \in Thr |-> <<>>]] /\ case = <<>> /\ i = 0 /\ done = FALSE
Goes(o, h) == ser[seen + 1] # MISS /\ Holds(o, ser[seen + 1], h)
SNext == /\ seen < Len(ser) /\ seen' = seen + 1
         /\ run' = [o \in Ops |-> [h \in Thr |-> IF Goes(o, h) THEN run[o][h] + 1 ELSE 0]]
         /\ over' = [o \in Ops |-> [h \in Thr |-> IF ~Goes(o, h) /\ run[o][h] > 0 THEN Append(over[o][h], run[o][h]) ELSE over[o][h]]]
         /\ UNCHANGED <<ser, case, i, done>>
Ended == seen = Len(ser)
OnePass == Ended => \A o \in Ops, h \in Thr : LET c == Occurs(ser, o, h) IN
   /\ Runs(c) = over[o][h] \o (IF run[o][h] > 0 THEN <<run[o][h]>> ELSE <<>>)
   /\ SumSeq(Runs(c)) = Count(c)
   /\ FoldSet(LAMBDA x, a : a + x[1] * x[2], 0, Freqs(c)) = Count(c)
   /\ \A x \in Freqs(c) : x[1] > 0 \/ x[2] = 1
   /\ 2 * Stat([func |-> "max"], Spells(c))[1] >= 2 * Stat([func |-> "min"], Spells(c))[1]
Opposites == Ended => \A h \in Thr : LET n == Len(Unmasked(ser)) IN
   /\ Count(Occurs(ser, "gt", h)) + Count(Occurs(ser, "lte", h)) = n
   /\ Count(Occurs(ser, "lt", h)) + Count(Occurs(ser, "gte", h)) = n
Windows == Ended => \A t \in 1..Len(ser) :
   /\ Window(ser, t, 2 * Len(ser) + 1) = Unmasked(ser)
   /\ \A k \in {3, 5} : (ser[t] # MISS => Window(ser, t, k) # <<>>) /\ (Full(ser, t, k) => Len(SubSeq(ser, t - Half(k), t + Half(k))) = k)
Convolved == Ended => \A t \in 1..Len(ser) :
   /\ Conv(ser, <<1>>, t, "same") = (IF ser[t] = MISS THEN <<>> ELSE <<ser[t], 1>>)
   /\ Conv(ser, <<0, 1, 0>>, t, "same") # <<>> => Conv(ser, <<0, 1, 0>>, t, "same") = <<ser[t], 1>>
   /\ Conv(ser, <<1, 1, 1>>, t, "valid") # <<>> => Conv(ser, <<1, 1, 1>>, t, "valid") = Conv(ser, <<1, 1, 1>>, t + 1, "same")
Alternates == Ended => LET b == Unmasked(ser) IN
   /\ FreezeThaw(b, 1) <= Cardinality({k \in 1..(Len(b) - 1) : Sgn(b[k]) # Sgn(b[k + 1])})
   /\ \A h \in {1, 3} : FreezeThaw(b, h + 2) <= FreezeThaw(b, h) + 1

\* cases
Funcs == {"between", "threshold", "duration", "freq_duration", "moving_window", "convolve_1d", "freezethaw", "heat_index", "daily_perc"}
RandSeries(n, S) == LET m == RandomElement({0, 0, 2, 5}) z == RandomElement(1..5) IN
   TLCEval([k \in 1..n |-> IF z = 1 \/ RandomElement(1..10) <= m THEN MISS ELSE RandomElement(S)])
GenInit == ser = <<>> /\ seen = 0 /\ run = <<>> /\ over = <<>> /\ case = <<>> /\ i = 0 /\ done = FALSE
GenNext ==
  CASE case = <<>> ->
         \E f \in {RandomElement(Funcs)} : \E n \in {RandomElement(2..MaxN)} : \E loc \in {RandomElement(1..4)} :
           case' = TLCEval([func |-> f, n |-> n, cut |-> RandomElement(1..n), loc |-> loc, op |-> RandomElement(Ops), thr |-> RandomElement(-4..6), hi |-> RandomElement(0..8),
                     summary |-> RandomElement({"mean", "median", "std", "max", "min"}), k |-> RandomElement({3, 5, 7}), mode |-> RandomElement({"same", "valid"}),
                     stat |-> RandomElement({"mean", "min", "max", "median", "var", "std"}),
                     v |-> LET m == RandomElement(1..Min2(n, 4)) IN TLCEval([j \in 1..m |-> RandomElement(-2..3)]),
                     w |-> RandomElement({1, 3, 5}), only |-> RandomElement(BOOLEAN), p |-> RandomElement({0, 25, 50, 90, 100}),
                     start |-> RandomElement({<<1999, 12, 26>>, <<2000, 2, 24>>, <<2003, 2, 25>>, <<2001, 6, 10>>, <<2003, 12, 28>>}), gaps |-> TLCEval([k \in 1..n |-> RandomElement({1, 1, 1, 2, 3, 360, 364, 365, 366})])])
           /\ UNCHANGED <<ser, seen, run, over, i, done>>
    [] Len(ser) < 2 * case.loc ->
         /\ ser' = Append(ser, IF case.func = "heat_index" THEN (IF Len(ser) % 2 = 0 THEN RandSeries(case.n, 7..11) ELSE RandSeries(case.n, 3..9)) ELSE RandSeries(case.n, Vals))
         /\ UNCHANGED <<seen, run, over, case, i, done>>
    [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<ser, seen, run, over, case, i>>
\* the dates of a case: days after the start
RECURSIVE Sums(_, _)
Sums(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sums(s, k - 1)
Dates(c) == [k \in 1..c.n |-> LET d == DateTime("proleptic_gregorian", <<DayNo(c.start[1], c.start[2], c.start[3]) + Sums(c.gaps, k - 1), 0>>) IN <<d[1], d[2], d[3]>>]
Emit == IF done THEN PrintT(<<"CASE", ToJson([c |-> case, dates |-> Dates(case), a |-> [l \in 1..case.loc |-> ser[2 * l - 1]], b |-> [l \in 1..case.loc |-> ser[2 * l]]])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging: out[l] is the sequence of results of location l, each <<>> or <<num, den>>, or a sequence of pairs
Parts(c) == IF c.cut = c.n THEN <<<<1, c.n>>>> ELSE <<<<1, c.cut>>, <<c.cut + 1, c.n>>>>
Of(q, b, e) == IF b = <<>> THEN q = <<>> ELSE Same(q, e)
OneGroup(c, q, s) ==
  LET b == Unmasked(s) o == Occurs(s, c.op, c.thr) IN
  CASE c.func = "threshold" -> Of(q, b, <<Count(o), 1>>)
    [] c.func = "between" -> Of(q, b, <<Count([k \in 1..Len(s) |-> s[k] # MISS /\ 2 * s[k] >= c.thr /\ 2 * s[k] <= Max2(c.thr, c.hi)]), 1>>)
    [] c.func = "duration" -> IF b = <<>> THEN q = <<>> ELSE Same(q, Stat([func |-> c.summary], Spells(o)))
    [] c.func = "freq_duration" -> IF b = <<>> THEN q = <<>> ELSE Rng(q) = Freqs(o) /\ Len(q) = Cardinality(Freqs(o))
    [] c.func = "freezethaw" -> IF b = <<>> THEN q = <<>> ELSE Same(q, <<FreezeThaw(b, 2 * c.k), 1>>)
AtStep(c, q, s, r, t) ==
  CASE c.func = "moving_window" ->
         LET b == Window(s, t, c.k) IN
         IF (c.mode = "valid" /\ ~Full(s, t, c.k)) \/ b = <<>> THEN q = <<>>
         ELSE Same(q, Stat([func |-> c.stat], b)) \/ (s[t] = MISS /\ q = <<>>)
    [] c.func = "convolve_1d" -> LET e == Conv(s, c.v, t, c.mode) IN IF e = <<>> THEN q = <<>> ELSE Same(q, e)
    [] c.func = "heat_index" -> IF HeatHidden(s[t], r[t]) THEN q = <<>> ELSE q # <<>> /\ Abs(q[1] - Heat(s[t], r[t])) <= 100
Grouped == {"between", "threshold", "duration", "freq_duration", "freezethaw"}
ValuesOf(r, l) ==
  LET c == r.c s == r.a[l] out == r.out[l] IN
  CASE c.func \in Grouped -> Len(out) = Len(Parts(c)) /\ \A g \in 1..Len(out) : OneGroup(c, out[g], SubSeq(s, Parts(c)[g][1], Parts(c)[g][2]))
    [] c.func = "daily_perc" -> /\ Len(out) = Len(r.days) /\ Len(r.days) = Cardinality(Rng(r.days)) /\ Rng(r.days) = {<<r.dates[k][2], r.dates[k][3]>> : k \in 1..c.n}
                                /\ \A g \in 1..Len(out) : LET b == DaySample(s, r.dates, r.days[g][1], r.days[g][2], c.w, c.only) IN
                                     Of(out[g], b, IF b = <<>> THEN <<0, 1>> ELSE Stat([func |-> "freq_perc", par |-> c.p], b))
    [] OTHER -> Len(out) = c.n /\ \A t \in 1..c.n : AtStep(c, out[t], s, r.b[l], t)
Fail(r) == IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE IF Len(r.out) # r.c.loc THEN {"locations"}
  ELSE {<<"values", r.c.func, IF \E x \in Rng(r.a[l]) : x = MISS THEN "masked" ELSE "plain">> : l \in {l \in 1..r.c.loc : ~ValuesOf(r, l)}}
       \cup Broken(<<<<"again", r.again>>, <<"source", r.source>> >>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ ser = <<>> /\ seen = 0 /\ run = <<>> /\ over = <<>> /\ case = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<ser, seen, run, over, case, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
