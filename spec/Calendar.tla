------------------------------ MODULE Calendar ------------------------------
(* The calendars of the climate and forecast conventions: dates, their lengths of months, and the number of days from  *)
(* one date to another.  An instant is <<day number, second of the day>>; a date is <<year, month, day, second>>.       *)
EXTENDS Integers, Sequences

Calendars == {"standard", "proleptic_gregorian", "julian", "noleap", "all_leap", "360_day"}
DaySecs == 86400

LeapJ(y) == y % 4 = 0
LeapG(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Leap(cal, y) == CASE cal = "noleap" -> FALSE
                  [] cal = "360_day" -> FALSE
                  [] cal = "all_leap" -> TRUE
                  [] cal = "julian" -> LeapJ(y)
                  [] cal = "proleptic_gregorian" -> LeapG(y)
                  [] OTHER -> IF y <= 1582 THEN LeapJ(y) ELSE LeapG(y)

MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
Before    == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthLen(cal, y, m) == IF cal = "360_day" THEN 30 ELSE MonthDays[m] + (IF m = 2 /\ Leap(cal, y) THEN 1 ELSE 0)

\* the days dropped when the standard calendar changed over
Dropped(cal, y, m, d) == cal = "standard" /\ y = 1582 /\ m = 10 /\ d \in 5..14
ValidDate(cal, y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(cal, y, m) /\ ~Dropped(cal, y, m, d)

OfYear(cal, y, m, d) == Before[m] + d - 1 + (IF m > 2 /\ Leap(cal, y) THEN 1 ELSE 0)
JulianDay(y, m, d) == 365 * (y - 1) + (y - 1) \div 4 + OfYear("julian", y, m, d)
GregDay(y, m, d) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 + OfYear("proleptic_gregorian", y, m, d)
\* in the standard calendar the day after 4 October 1582 (Julian) is 15 October 1582 (Gregorian): the two counts differ
\* by two days counted from their own first year
AfterReform(y, m, d) == y > 1582 \/ (y = 1582 /\ (m > 10 \/ (m = 10 /\ d >= 15)))
DayNum(cal, y, m, d) ==
  CASE cal = "360_day" -> 360 * y + 30 * (m - 1) + d - 1
    [] cal = "noleap" -> 365 * y + Before[m] + d - 1
    [] cal = "all_leap" -> 366 * y + OfYear("all_leap", y, m, d)
    [] cal = "julian" -> JulianDay(y, m, d)
    [] cal = "proleptic_gregorian" -> GregDay(y, m, d)
    [] OTHER -> IF AfterReform(y, m, d) THEN GregDay(y, m, d) + 2 ELSE JulianDay(y, m, d)

YearOf(cal, n) == CHOOSE y \in (n \div 366 - 1)..(n \div 360 + 2) : DayNum(cal, y, 1, 1) <= n /\ n < DayNum(cal, y + 1, 1, 1)
DateOf(cal, n) == LET y == YearOf(cal, n)
                      m == CHOOSE m \in 1..12 : DayNum(cal, y, m, 1) <= n /\ (m = 12 \/ n < DayNum(cal, y, m + 1, 1))
                      k == n - DayNum(cal, y, m, 1) + 1
                  IN <<y, m, IF cal = "standard" /\ y = 1582 /\ m = 10 /\ k >= 5 THEN k + 10 ELSE k>>

\* the day after, as a wall calendar has it
NextDay(cal, y, m, d) ==
  LET k == IF cal = "standard" /\ y = 1582 /\ m = 10 /\ d = 4 THEN 15 ELSE d + 1
  IN IF k <= MonthLen(cal, y, m) THEN <<y, m, k>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>

\* instants
Norm(d, s) == <<d + s \div DaySecs, s % DaySecs>>
Plus(a, o)  == Norm(a[1] + o[1], a[2] + o[2])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Before2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Inst(cal, dt) == <<DayNum(cal, dt[1], dt[2], dt[3]), dt[4]>>
GoodDate(cal, dt) == ValidDate(cal, dt[1], dt[2], dt[3]) /\ dt[4] \in 0..(DaySecs - 1)
DateTime(cal, a) == DateOf(cal, a[1]) \o <<a[2]>>
LexLess(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]

\* months after a reference
MonthsAfter(y, m, n) == LET t == y * 12 + (m - 1) + n IN <<t \div 12, (t % 12) + 1>>
=============================================================================
