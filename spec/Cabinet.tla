------------------------------- MODULE Cabinet -------------------------------
(* I04.  A source of features and the ways to ask for some of them.  A feature is an identifier, a name and a number; its place  *)
(* in the file stands for its geometry.                                                                                           *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxN, MaxSel

VARIABLES case, i, done

Missing == -999
\* File: [feats : sequence of [id, name, num], key : attribute with the identifiers or "none"]
\* Query: [uid, sel : [has, ids], where : [has, terms, join], slc : [kind, list, a, b, step, at]]
Attr(f, file, a) == CASE a = "num" -> f.num [] a = "name" -> f.name [] OTHER -> f.id
Holds(t, f) == CASE t.op = "=" -> (t.attr = "name" /\ f.name = t.txt) \/ (t.attr # "name" /\ (IF t.attr = "num" THEN f.num ELSE f.id) = t.val /\ t.val # Missing)
               [] t.op = ">" -> LET v == IF t.attr = "num" THEN f.num ELSE f.id IN v # Missing /\ v > t.val
               [] t.op = "in" -> f.name \in Rng(t.txts)
               [] OTHER -> f.name = "NULL"
Accepts(w, f) == IF w.join = "and" THEN \A k \in 1..Len(w.terms) : Holds(w.terms[k], f) ELSE \E k \in 1..Len(w.terms) : Holds(w.terms[k], f)
\* The attribute of the identifiers, "" when numbers are assigned, "?" when it is not there
UidOf(file, q) == IF q.uid # "" THEN (IF q.uid = file.key THEN q.uid ELSE "?") ELSE IF file.key = "UGID" THEN "UGID" ELSE ""
\* Slices as in Python
Clamp(x, n) == IF x < 0 THEN Max2(0, x + n) ELSE Min2(x, n)
RECURSIVE Steps(_, _, _)
Steps(a, b, s) == IF a >= b THEN <<>> ELSE <<a + 1>> \o Steps(a + s, b, s)
OutOf(x, n) == x >= n \/ x < -n
SliceOf(s, n) == CASE s.kind = "none" -> [k \in 1..n |-> k]
                   [] s.kind = "int" -> <<(s.at % n) + 1>>
                   [] s.kind = "list" -> [k \in 1..Len(s.list) |-> (s.list[k] % n) + 1]
                   [] OTHER -> Steps(IF s.a = Missing THEN 0 ELSE Clamp(s.a, n), IF s.b = Missing THEN n ELSE Clamp(s.b, n), s.step)
SliceBad(s, n) == (s.kind = "int" /\ OutOf(s.at, n)) \/ (s.kind = "list" /\ \E k \in 1..Len(s.list) : OutOf(s.list[k], n))
\* Places of the features asked for.  A filter, when given, decides also if identifiers are given.
Asked(file, q) ==
  LET n == Len(file.feats) all == [k \in 1..n |-> k] IN
  IF q.where.has THEN SelectSeq(all, LAMBDA k : Accepts(q.where, file.feats[k]))
  ELSE IF q.sel.has THEN SelectSeq(all, LAMBDA k : file.feats[k].id \in Rng(q.sel.ids))
  ELSE SliceOf(q.slc, n)
Conflict(q) == q.slc.kind # "none" /\ (q.sel.has \/ q.where.has)
NoSuchUid(file, q) == UidOf(file, q) = "?" \/ (q.sel.has /\ ~q.where.has /\ (IF q.uid = "" THEN "UGID" ELSE q.uid) # file.key)
SlicedOut(file, q) == SliceBad(q.slc, Len(file.feats))
Refused(file, q) == Conflict(q) \/ NoSuchUid(file, q) \/ SlicedOut(file, q) \/ Asked(file, q) = <<>>
\* Numbers assigned are places in the file, whatever is asked for
IdOf(file, q, k) == IF UidOf(file, q) = "" THEN k - 1 ELSE file.feats[k].id

----------------------------------------------------------------------------
\* Model: selecting is the same by filter, by identifier and by slice; what is yielded does not depend on what else is asked for
Feat(a, b, c) == [id |-> a, name |-> b, num |-> c]
NoSel == [has |-> FALSE, ids |-> <<>>]
NoWhere == [has |-> FALSE, terms |-> <<>>, join |-> "and"]
NoSlc == [kind |-> "none", list |-> <<>>, a |-> Missing, b |-> Missing, step |-> 1, at |-> 0]
Term(a, o, v, t, ts) == [attr |-> a, op |-> o, val |-> v, txt |-> t, txts |-> ts]
Init == /\ \E n \in 1..MaxN : \E key \in {"UGID", "ID", "none"} : \E u \in {"", "ID", "UGID"} : \E ids \in [1..2 -> 1..MaxN] : \E a \in -MaxN..MaxN : \E b \in {-2, 1, 2, MaxN, Missing} : \E st \in 1..2 :
             case = [file |-> [feats |-> [k \in 1..n |-> Feat((k * 2) % (n + 1), "a", k)], key |-> key], u |-> u, ids |-> ids, a |-> a, b |-> b, st |-> st]
        /\ i = 0 /\ done = FALSE
Next == UNCHANGED <<case, i, done>>
Q(u, s, w, l) == [uid |-> u, sel |-> s, where |-> w, slc |-> l]
SameByFilter == LET c == case s == Q(c.u, [has |-> TRUE, ids |-> c.ids], NoWhere, NoSlc)
                    w == Q(c.u, NoSel, [has |-> TRUE, join |-> "or", terms |-> [k \in 1..2 |-> Term("id", "=", c.ids[k], "", <<>>)]], NoSlc) IN Asked(c.file, s) = Asked(c.file, w)
SliceInside == LET a == Asked(case.file, Q(case.u, NoSel, NoWhere, [NoSlc EXCEPT !.kind = "slice", !.a = case.a, !.b = case.b, !.step = case.st])) IN
                 (\A k \in 1..Len(a) : a[k] \in 1..Len(case.file.feats)) /\ (\A k \in 1..(Len(a) - 1) : a[k + 1] - a[k] = case.st)
Unique == LET c == case q == Q(c.u, NoSel, NoWhere, NoSlc) a == Asked(c.file, q) IN
            (\A k, m \in 1..Len(c.file.feats) : (k # m => c.file.feats[k].id # c.file.feats[m].id)) => \A k, m \in 1..Len(a) : k # m => IdOf(c.file, q, a[k]) # IdOf(c.file, q, a[m])

----------------------------------------------------------------------------
R(s) == RandomElement(s)
Chance(z, p) == R(1..p) = 1
RECURSIVE Perm(_, _)
Perm(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Perm(S \ {x}, n - 1)
Names == {"a", "b", "c", "NULL"}
RECURSIVE Feats(_, _)
Feats(ids, n) == IF n = 0 THEN <<>> ELSE TLCEval(<<Feat(ids[n], R(Names), IF Chance(n, 5) THEN Missing ELSE R(0..4))>>) \o Feats(ids, n - 1)
GTerm(z) == TLCEval(LET kd == R(1..5) IN CASE kd = 1 -> Term("num", "=", R(0..4), "", <<>>) [] kd = 2 -> Term("num", ">", R(-1..4), "", <<>>) [] kd = 3 -> Term("name", "=", 0, R({"a", "b", "c"}), <<>>)
                   [] kd = 4 -> Term("name", "in", 0, "", Perm({"a", "b", "c"}, R(1..2))) [] OTHER -> Term("name", "null", 0, "", <<>>))
RECURSIVE GTerms(_)
GTerms(n) == IF n = 0 THEN <<>> ELSE <<GTerm(n)>> \o GTerms(n - 1)
RECURSIVE GInts(_, _, _)
GInts(n, lo, hi) == IF n = 0 THEN <<>> ELSE TLCEval(<<R(lo..hi)>>) \o GInts(n - 1, lo, hi)
GSlc(n) == TLCEval(LET kd == R({"int", "list", "slice", "slice"}) m == IF Chance(n, 12) THEN n ELSE n - 1 IN
   [kind |-> kd, list |-> IF kd = "list" THEN (IF Chance(n, 2) THEN GInts(R(1..4), -n, m) ELSE GInts(R(1..4), 0, m)) ELSE <<>>, a |-> R({Missing} \cup (-n..n)), b |-> R({Missing} \cup (-n..(n + 1))), step |-> R({1, 1, 2}), at |-> R(-n..m)])
GenFile(z) == TLCEval(LET n == R(1..MaxN) ids == Perm(1..(2 * MaxN), n) IN [feats |-> Feats(ids, n), key |-> R({"UGID", "UGID", "ID", "none"})])
GenQuery(file) == TLCEval(LET kd == R({"all", "sel", "sel", "where", "where", "slc", "slc", "mixed"}) n == Len(file.feats)
                              some == Perm({file.feats[k].id : k \in 1..n}, R(1..MaxSel)) IN
  [uid |-> IF file.key # "none" /\ R(1..4) > 1 THEN R({"", file.key, file.key}) ELSE R({"", "", "ID", "UGID"}),
   sel |-> IF kd \in {"sel", "mixed"} THEN [has |-> TRUE, ids |-> IF R(1..3) = 1 THEN some \o GInts(R(1..2), 1, 2 * MaxN) ELSE some] ELSE NoSel,
   where |-> IF kd = "where" \/ (kd = "mixed" /\ R(1..2) = 1) THEN [has |-> TRUE, terms |-> GTerms(R(1..2)), join |-> R({"and", "or"})] ELSE NoWhere,
   slc |-> IF kd = "slc" \/ (kd = "mixed" /\ R(1..2) = 1) THEN GSlc(n) ELSE NoSlc])
GenInit == case = <<>> /\ i = 0 /\ done = FALSE
GenNext == /\ i < 2 /\ \E f \in {GenFile(i)} : \E q \in {GenQuery(f)} : \E v \in {R({"iter", "field", "bare", "union", "geom", "given", "records", "process", "fields"})} : case' = [file |-> f, q |-> q, via |-> v, driver |-> R({"shp", "shp", "geojson", "gpkg"})]
           /\ i' = i + 1 /\ UNCHANGED done
Emit == case = <<>> \/ PrintT(<<"CASE", ToJson(case)>>)

----------------------------------------------------------------------------
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ case = <<>>
\* r.rows: [uidname, id, name, num, place (0 if no geometry was asked for), union (places of a union)]
RowIs(r, w, k, id, uidname) == LET f == r.file.feats[k] IN
   /\ w.uidname = uidname /\ w.id = id
   /\ w.name = f.name /\ w.num = f.num
   /\ w.attrs = 2 + (IF r.file.key \in {"ID", "UGID"} THEN 1 ELSE 0) + (IF uidname # r.file.key THEN 1 ELSE 0)
   /\ (r.file.key # "none" => w.key = f.id)
   /\ w.place = (IF r.via = "bare" THEN 0 ELSE k)
UidName(r) == LET u == UidOf(r.file, r.q) IN IF u = "" THEN "UGID" ELSE u
\* dictionaries handed over: their own identifiers, or one, two, three
RecordsFail(r) == LET n == Len(r.file.feats) own == r.file.key = "UGID" IN
  Broken(<<<<"accepted", ~r.refused>>, <<"rows", Len(r.rows) = n /\ \A k \in 1..Min2(n, Len(r.rows)) : RowIs(r, r.rows[k], k, IF own THEN r.file.feats[k].id ELSE k, "UGID")>>>>)
ProcessFail(r) == LET n == Len(r.file.feats) own == r.q.uid # "" IN
  IF own /\ r.q.uid # r.file.key THEN Broken(<<<<"refused", r.refused>>>>)
  ELSE Broken(<<<<"accepted", ~r.refused>>, <<"rows", Len(r.rows) = n /\ \A k \in 1..Min2(n, Len(r.rows)) :
          LET w == r.rows[k] f == r.file.feats[k] IN w.uidname = "UGID" /\ w.id = (IF own THEN f.id ELSE k) /\ w.name = f.name /\ w.num = f.num /\ w.place = k>>, <<"source", r.same>>>>)
Fail(r) ==
  IF r.via = "records" THEN RecordsFail(r) ELSE IF r.via = "process" THEN ProcessFail(r)
  ELSE LET ask == IF SlicedOut(r.file, r.q) THEN <<>> ELSE TLCEval(Asked(r.file, r.q)) n == Len(ask) IN
  IF Refused(r.file, r.q) THEN Broken(<<<<"refused", r.refused>>, <<"empty-length", (~Conflict(r.q) /\ ~NoSuchUid(r.file, r.q) /\ ~SlicedOut(r.file, r.q) /\ r.via # "union") => r.length = 0>>, <<"source", r.same>>>>)
  ELSE Broken(<<
    <<"accepted", ~r.refused>>,
    <<"source", r.same>>,
    <<"again", r.again>>,
    <<"length", r.length = (IF r.via = "union" THEN 1 ELSE n)>>,
    <<"rows", IF r.via = "union" THEN Len(r.rows) = 1 /\ r.rows[1].id = 1 /\ Rng(r.rows[1].union) = Rng(ask)
              ELSE Len(r.rows) = n /\ \A k \in 1..Min2(n, Len(r.rows)) : RowIs(r, r.rows[k], ask[k], IdOf(r.file, r.q, ask[k]) + (IF r.driver = "gpkg" /\ UidOf(r.file, r.q) = "" THEN 1 ELSE 0), UidName(r))>>>>)
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<case, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
