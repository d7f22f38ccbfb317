----------------------------- MODULE CalendarMC -----------------------------
(* A clock that turns the leaves of every calendar one day at a time: the closed form of the day numbers and its      *)
(* inverse have to agree with it.                                                                                      *)
EXTENDS Calendar, TLC
CONSTANTS FirstYears, Span

VARIABLES cal, date, n, left, prev
vars == <<cal, date, n, left, prev>>
Init == /\ cal \in Calendars
        /\ \E y \in FirstYears : date = <<y, 1, 1>> /\ n = DayNum(cal, y, 1, 1)
        /\ left = Span
        /\ prev = <<0, 0, 0>>
Next == /\ left > 0
        /\ date' = NextDay(cal, date[1], date[2], date[3])
        /\ n' = n + 1
        /\ left' = left - 1
        /\ prev' = date
        /\ UNCHANGED cal
Agree == DayNum(cal, date[1], date[2], date[3]) = n
Inverse == DateOf(cal, n) = date
Valid == ValidDate(cal, date[1], date[2], date[3])
Ordered == prev = <<0, 0, 0>> \/ LexLess(prev, date)
MonthStep == LET a == MonthsAfter(date[1], date[2], 1) IN a = IF date[2] = 12 THEN <<date[1] + 1, 1>> ELSE <<date[1], date[2] + 1>>
=============================================================================
