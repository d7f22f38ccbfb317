------------------------------ MODULE TimeCells ------------------------------
(* Steps of time (and levels) as cells [v, lo, hi]: numbers of hours after a reference date f.ref of a calendar f.cal.    *)
EXTENDS Integers, Sequences, FiniteSets, Calendar, SequencesExt

DateH(f, h) == LET d == DayNum(f.cal, f.ref[1], f.ref[2], f.ref[3]) + (h \div 24) IN DateOf(f.cal, d) \o <<(h % 24) * 3600>>
Cells(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]
Ends(c) == {c.lo, c.hi}
Contiguous(cells) == \E k \in 1..(Len(cells) - 1) : Ends(cells[k]) \cap Ends(cells[k + 1]) # {}
InRange(cells, k, a, b, closed, useb) ==
  LET c == cells[k] IN
  IF ~useb THEN (IF closed THEN a < c.v /\ c.v < b ELSE a <= c.v /\ c.v <= b)
  ELSE IF closed THEN c.hi > a /\ c.lo < b
  \* an edge shared by neighbours belongs to the cell it begins
  ELSE IF Contiguous(cells) THEN (c.hi > a \/ c.lo >= a) /\ (c.lo <= b \/ c.hi < b)
  ELSE c.hi >= a /\ c.lo <= b
MonthsOf(f, c, useb) ==
  IF ~useb THEN {DateH(f, c.v)[2]}
  ELSE LET l == DateH(f, c.lo)[2] u == DateH(f, c.hi)[2] IN IF l = u THEN {l} ELSE IF l < u THEN l..(u - 1) ELSE (l..12) \cup (1..(u - 1))
YearsOf(f, c, useb) ==
  IF ~useb THEN {DateH(f, c.v)[1]}
  ELSE LET l == DateH(f, c.lo)[1] u == DateH(f, c.hi)[1] IN IF l = u THEN {l} ELSE l..(u - 1)
InRegion(f, c, useb, months, years) == (months = {} \/ MonthsOf(f, c, useb) \cap months # {}) /\ (years = {} \/ YearsOf(f, c, useb) \cap years # {})


\* regions from seasons: every season of every year, seasons over the end of the year taking their first months of the
\* next; none for which there is no next year or nothing in a part
Interannual(s) == {12, 1} \subseteq Range(s)
\* the months at the end of the year and the months at the start of the next
Tail12(s) == {m \in Range(s) : m..12 \subseteq Range(s)}
Parts(s, y, split) == IF split /\ Interannual(s) /\ Range(s) # 1..12 THEN <<[year |-> {y}, month |-> Tail12(s)], [year |-> {y + 1}, month |-> Range(s) \ Tail12(s)]>>
                      ELSE <<[year |-> {y}, month |-> Range(s)]>>
Regions(seasons, ym) ==
  LET years == {p[1] : p \in ym}
      ys == SetToSortSeq(years, LAMBDA a, b : a < b)
      split == Cardinality(years) > 1
      all == FlattenSeq([k \in 1..Len(ys) |-> [j \in 1..Len(seasons) |-> Parts(seasons[j], ys[k], split)]]) IN
  SelectSeq(all, LAMBDA r : \A k \in 1..Len(r) : \E p \in ym : p[1] \in r[k].year /\ p[2] \in r[k].month)
Refuses(seasons, ym) == LET years == {p[1] : p \in ym} IN Cardinality(years) > 1 /\ \E s \in Range(seasons) : Interannual(s) /\ Range(s) # 1..12
\* by last (or first) month, otherwise in the order given
SeasonKey(s, method) == IF method = "max" THEN CHOOSE m \in Range(s) : \A x \in Range(s) : x <= m ELSE CHOOSE m \in Range(s) : \A x \in Range(s) : x >= m
SortSeasons(seasons, method) ==
  LET idx == SetToSortSeq(1..Len(seasons), LAMBDA a, b : LET p == SeasonKey(seasons[a], method) q == SeasonKey(seasons[b], method) IN p < q \/ (p = q /\ a < b))
  IN [k \in 1..Len(idx) |-> seasons[idx[k]]]

=============================================================================
