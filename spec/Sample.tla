------------------------------- MODULE Sample -------------------------------
(* Statistics of samples of integers, as <<numerator, denominator>>. *)
EXTENDS Judge, SequencesExt
Unmasked(b) == SelectSeq(b, LAMBDA q : q # MISS)
Sorted(b) == SortSeq(b, LAMBDA x, y : x < y)
SumSq(b) == SumSeq([n \in 1..Len(b) |-> b[n] * b[n]])
Stat(c, b) ==
  LET n == Len(b) s == Sorted(b) IN
  CASE c.func = "mean" -> <<SumSeq(b), n>>
    [] c.func = "sum" -> <<SumSeq(b), 1>>
    [] c.func = "max" -> <<s[n], 1>>
    [] c.func = "min" -> <<s[1], 1>>
    [] c.func = "median" -> <<s[(n + 1) \div 2] + s[(n + 2) \div 2], 2>>
    [] c.func \in {"std", "var"} -> <<n * SumSq(b) - SumSeq(b) * SumSeq(b), n * n>>           \* its square
    [] c.func = "freq_perc" -> LET h == (n - 1) * c.par k == h \div 100 f == h % 100 IN
                                 <<100 * s[k + 1] + (IF f = 0 THEN 0 ELSE f * (s[k + 2] - s[k + 1])), 100>>
Same(q, e) == q # <<>> /\ q[1] * e[2] = e[1] * q[2]
=============================================================================
