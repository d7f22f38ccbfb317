------------------------------- MODULE Groups -------------------------------
(* T03.  Sharing out steps of time to groups: each date part's value, each season, each complete season of each year, all. *)
EXTENDS Judge, TimeCells

CONSTANTS Cals, Refs, MaxT, Patterns

VARIABLES fld, grp, seen, groups, i, done

\* fld: [cal, ref, tb, time]; grp: [kind, parts, seasons, year]
Cell(f, k) == f.time[k]
DateOfStep(f, k) == DateH(f, f.time[k].v)
PartNo(p) == CASE p = "year" -> 1 [] p = "month" -> 2 [] p = "day" -> 3
PartSeq(g) == SelectSeq(<<"year", "month", "day">>, LAMBDA p : p \in g.parts)
KeyOf(f, g, k) == LET d == DateOfStep(f, k) ps == PartSeq(g) IN [n \in 1..Len(ps) |-> d[PartNo(ps[n])]]
Lo(f, k) == IF f.tb THEN f.time[k].lo ELSE f.time[k].v
Hi(f, k) == IF f.tb THEN f.time[k].hi ELSE f.time[k].v
Steps(f) == 1..Len(f.time)
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
NonEmpty(gs) == SelectSeq(gs, LAMBDA x : x.mem # {})
\* the groups of steps: a sequence of [mem, key, season]
ByParts(f, g) ==
  LET keys == SetToSortSeq({KeyOf(f, g, k) : k \in Steps(f)}, LexLess)
  IN [n \in 1..Len(keys) |-> [mem |-> {k \in Steps(f) : KeyOf(f, g, k) = keys[n]}, key |-> keys[n], season |-> {}]]
BySeasons(f, g) ==
  LET ss == SortSeasons(g.seasons, "min")
      years == SortSet({DateOfStep(f, k)[1] : k \in Steps(f)})
      of(s, y) == {k \in Steps(f) : DateOfStep(f, k)[2] \in Range(s) /\ (y # 0 => DateOfStep(f, k)[1] = y)}
  IN NonEmpty(FlattenSeq([n \in 1..(IF g.year THEN Len(years) ELSE 1) |->
       [m \in 1..Len(ss) |-> [mem |-> of(ss[m], IF g.year THEN years[n] ELSE 0), key |-> IF g.year THEN <<years[n]>> ELSE <<>>, season |-> Range(ss[m])]]]))
\* a season of a year is complete when it has data of each of its months
UniqueSeasons(f, g) ==
  LET regs == Regions(SortSeasons(g.seasons, "max"), {<<DateOfStep(f, k)[1], DateOfStep(f, k)[2]>> : k \in Steps(f)})
      part(p) == {k \in Steps(f) : InRegion(f, f.time[k], f.tb, p.month, p.year)}
      complete(r) == \A n \in 1..Len(r) : {DateOfStep(f, k)[2] : k \in part(r[n])} = r[n].month
      ok == SelectSeq(regs, complete)
  IN [n \in 1..Len(ok) |-> [mem |-> UNION {part(ok[n][m]) : m \in 1..Len(ok[n])}, key |-> <<>>, season |-> UNION {ok[n][m].month : m \in 1..Len(ok[n])}]]
GroupsOf(f, g) ==
  CASE g.kind = "all" -> <<[mem |-> Steps(f), key |-> <<>>, season |-> {}]>>
    [] g.kind = "parts" -> ByParts(f, g)
    [] g.kind = "seasons" -> BySeasons(f, g)
    [] g.kind = "unique" -> UniqueSeasons(f, g)
BoundsOf(f, mem) == <<DateH(f, MinSet({Lo(f, k) : k \in mem})), DateH(f, MaxSet({Hi(f, k) : k \in mem}))>>

----------------------------------------------------------------------------
\* the groups come about by going through the steps in order of time, each opening its group or joining it
Some(S, rnd) == IF rnd THEN {RandomElement(S)} ELSE S
SeqN(n, rnd, S) == IF rnd THEN {[k \in 1..n |-> RandomElement(S)]} ELSE [1..n -> S]
Quarters == <<<<12, 1, 2>>, <<3, 4, 5>>, <<6, 7, 8>>, <<9, 10, 11>>>>
SeasonSets == {Quarters, <<<<3, 4, 5>>, <<6, 7, 8>>, <<9, 10, 11>>, <<12, 1, 2>>>>, <<<<6, 7, 8>>>>, <<<<12, 1, 2>>>>, <<<<11, 12, 1>>, <<2, 3>>>>, <<<<1, 2, 12>>, <<5>>>>,
               <<<<10, 11, 12>>, <<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>>>>, <<<<12>>, <<1>>>>, <<<<4, 5, 6, 7, 8, 9>>, <<10, 11, 12, 1, 2, 3>>>>, <<<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>>>,
               <<<<3, 4, 5>>, <<12, 1, 2>>, <<8>>>>, <<<<1, 7>>, <<2, 12>>>>}
Groupings ==
  {[kind |-> "all", parts |-> {}, seasons |-> <<>>, year |-> FALSE]}
  \cup {[kind |-> "parts", parts |-> p, seasons |-> <<>>, year |-> FALSE] : p \in (SUBSET {"year", "month", "day"}) \ {{}}}
  \cup {[kind |-> "seasons", parts |-> {}, seasons |-> s, year |-> y] : s \in SeasonSets, y \in BOOLEAN}
  \cup {[kind |-> "unique", parts |-> {}, seasons |-> s, year |-> FALSE] : s \in SeasonSets \ {<<<<1, 7>>, <<2, 12>>>>}}
HoursTo(c, r, d) == 24 * (DayNum(c, d[1], d[2], d[3]) - DayNum(c, r[1], r[2], r[3]))
\* calendar months, some left out; days; cells of given length after gaps
MonthCells(c, r, ms) == LET cell(n) == LET a == MonthsAfter(r[1], r[2], n) b == MonthsAfter(r[1], r[2], n + 1)
                                           lo == HoursTo(c, r, <<a[1], a[2], 1>>) hi == HoursTo(c, r, <<b[1], b[2], 1>>) IN [lo |-> lo, hi |-> hi, v |-> lo + (hi - lo) \div 2]
                        IN [k \in 1..Len(ms) |-> cell(ms[k])]
Fixed(len, step, n, s) == [k \in 1..n |-> LET lo == s + (k - 1) * step IN [lo |-> lo, hi |-> lo + len, v |-> lo + len \div 2]]
Jumps(len, gaps) == [k \in 1..Len(gaps) |-> LET lo == (k - 1) * len + SumSeq(SubSeq(gaps, 1, k)) IN [lo |-> lo, hi |-> lo + len, v |-> lo + len \div 2]]
Times(c, r, n, p, rnd) ==
  CASE p = "months" -> {MonthCells(c, r, SelectSeq([k \in 1..(3 * n) |-> k - 1], LAMBDA k : ~(k \in s))) : s \in (IF rnd THEN {RandomElement({{}, {RandomElement(1..(3 * n)) : q \in 1..4}})} ELSE {{}, {1}})}
    [] p = "days" -> {Fixed(24, 24, n, s) : s \in Some({0, 24 * 20, 24 * 300}, rnd)}
    [] p = "hours" -> {Fixed(6, 6, n, 0)}
    [] p = "tens" -> {Fixed(240, 240, 2 * n, s) : s \in Some({0, 24 * 12}, rnd)}
    [] p = "jumps" -> {Jumps(len, g) : len \in Some({6, 24, 240, 720}, rnd), g \in SeqN(n, rnd, {0, 24, 720, 8760, 2160})}
Starts(rnd) == UNION {{[cal |-> c, ref |-> r, tb |-> tb, time |-> t] : tb \in Some(BOOLEAN, rnd), t \in Times(c, r, n, p, rnd)}
                      : c \in Some(Cals, rnd), r \in Some(Refs, rnd), n \in Some(1..MaxT, rnd), p \in Some(Patterns, rnd)}
Key2(f, g, k) == CASE g.kind = "all" -> {<<>>}
   [] g.kind = "parts" -> {KeyOf(f, g, k)}
   [] g.kind = "seasons" -> {<<IF g.year THEN DateOfStep(f, k)[1] ELSE 0, Range(s)>> : s \in {s \in Range(g.seasons) : DateOfStep(f, k)[2] \in Range(s)}}
   [] OTHER -> {}
Init == \E s \in Starts(FALSE) : \E g \in {g \in Groupings : g.kind # "unique"} : fld = s /\ grp = g /\ seen = 0 /\ groups = {} /\ i = 0 /\ done = FALSE
Next == /\ seen < Len(fld.time)
        /\ seen' = seen + 1
        /\ LET key == Key2(fld, grp, seen + 1)
               old == {x \in groups : x[1] \in key}
               new == {<<y, {seen + 1}>> : y \in {y \in key : \A x \in groups : x[1] # y}} IN
           groups' = (groups \ old) \cup {<<x[1], x[2] \cup {seen + 1}>> : x \in old} \cup new
        /\ UNCHANGED <<fld, grp, i, done>>
Members(gs) == [n \in 1..Len(gs) |-> gs[n].mem]
Agrees == seen = Len(fld.time) => {x[2] : x \in groups} = Range(Members(GroupsOf(fld, grp)))
\* disjoint, none empty, all steps in some group unless no season asked for has its month
Partition == seen = Len(fld.time) => LET gs == Members(GroupsOf(fld, grp)) IN
   /\ \A n \in 1..Len(gs) : gs[n] # {}
   /\ \A n, m \in 1..Len(gs) : n # m => gs[n] \cap gs[m] = {}
   /\ \A k \in Steps(fld) : (\E n \in 1..Len(gs) : k \in gs[n]) \/ (grp.kind = "seasons" /\ Key2(fld, grp, k) = {})
\* groups of whole dates come in order of time
InTime == seen = Len(fld.time) => LET gs == GroupsOf(fld, grp) IN (grp.parts \in {{"year"}, {"year", "month"}, {"year", "month", "day"}}) =>
   \A n \in 1..(Len(gs) - 1) : MaxSet(gs[n].mem) < MinSet(gs[n + 1].mem)
\* complete seasons of a year are disjoint, in order of time, and have all their months
UniqueWell == (seen = Len(fld.time) /\ grp.kind = "all") => \A s \in SeasonSets \ {<<<<1, 7>>, <<2, 12>>>>} :
   LET g == [kind |-> "unique", parts |-> {}, seasons |-> s, year |-> FALSE] gs == UniqueSeasons(fld, g) IN
   /\ \A n \in 1..Len(gs) : {DateOfStep(fld, k)[2] : k \in gs[n].mem} = gs[n].season
   /\ \A n, m \in 1..Len(gs) : n < m => gs[n].mem \cap gs[m].mem = {} /\ MaxSet(gs[n].mem) < MinSet(gs[m].mem)

Nil == [cal |-> "", ref |-> <<>>, tb |-> FALSE, time |-> <<>>]
NoGrp == [kind |-> "", parts |-> {}, seasons |-> <<>>, year |-> FALSE]
GenInit == fld = Nil /\ grp = NoGrp /\ seen = 0 /\ groups = {} /\ i = 0 /\ done = FALSE
GenNext == IF seen = 0 THEN \E s \in Starts(TRUE) : \E kd \in {RandomElement({"all", "parts", "parts", "seasons", "unique"})} :
                                 \E g \in {RandomElement({g \in Groupings : g.kind = kd})} : fld' = (IF RandomElement(1..4) = 1 THEN [s EXCEPT !.time = Reverse(@)] ELSE s) /\ grp' = g /\ seen' = 1 /\ UNCHANGED <<groups, i, done>>
           ELSE ~done /\ done' = TRUE /\ UNCHANGED <<fld, grp, seen, groups, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([fld |-> fld, grp |-> grp])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging
Asked(g) == [g EXCEPT !.parts = Rng(g.parts)]
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Good(f, d) == Len(d) = 4 /\ GoodDate(f.cal, d)
Fail(r) ==
  LET f == r.fld g == Asked(r.grp) want == GroupsOf(f, g) n == Len(want) IN
  IF want = <<>> THEN (IF r.refused # "" \/ r.groups = <<>> THEN {} ELSE {"groups-of-nothing"})
  ELSE IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE IF Len(r.groups) # n \/ Len(r.bounds) # n \/ Len(r.repr) # n THEN {<<"number", n, Len(r.groups), Len(r.bounds), Len(r.repr)>>}
  ELSE Broken(<<
    <<"members", \A k \in 1..n : Rng(r.groups[k]) = want[k].mem /\ Len(r.groups[k]) = Cardinality(want[k].mem)>>,
    <<"bounds", \A k \in 1..n : r.bounds[k] = BoundsOf(f, want[k].mem)>>,
    <<"numbers", \A k \in 1..n : Good(f, r.repr[k]) /\ DateTime(f.cal, Plus(Inst(f.cal, f.ref), r.num[k])) = r.repr[k]
                              /\ DateTime(f.cal, Plus(Inst(f.cal, f.ref), r.bnum[k][1])) = r.bounds[k][1] /\ DateTime(f.cal, Plus(Inst(f.cal, f.ref), r.bnum[k][2])) = r.bounds[k][2]>>,
    <<"representative", \A k \in 1..n : Good(f, r.repr[k]) /\ LET d == r.repr[k] b == BoundsOf(f, want[k].mem) IN
         CASE g.kind = "parts" -> /\ \A p \in 1..Len(want[k].key) : d[PartNo(PartSeq(g)[p])] = want[k].key[p]
                                  /\ b[1][1] <= d[1] /\ d[1] <= b[2][1]
           [] g.kind = "seasons" -> d[2] \in want[k].season /\ b[1][1] <= d[1] /\ d[1] <= b[2][1] /\ (g.year => d[1] = want[k].key[1])
           [] OTHER -> \E m \in want[k].mem : DateOfStep(f, m) = d>>,
    <<"date-parts", r.parts = <<>> \/ \A k \in 1..n : r.parts[k] = IF g.kind = "parts" THEN want[k].key ELSE SortSet(want[k].season) \o want[k].key>>,
    <<"source", r.source = [k \in 1..Len(f.time) |-> f.time[k].v]>>,
    <<"argument", r.after>> >>)

JInit == i \in 1..Len(Trace) /\ done = FALSE /\ fld = Nil /\ grp = NoGrp /\ seen = 0 /\ groups = {}
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<fld, grp, seen, groups, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
