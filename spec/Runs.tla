------------------------------- MODULE Runs -------------------------------
(* O02.  Runs writing into an output folder.  What is there is a set of things: folders named by a prefix, files named   *)
(* by a prefix and a part, and other things.  A run has its own things; it refuses to start where one is there unless     *)
(* overwriting, removes what it made when it fails, and never touches what is not its own.                                *)
EXTENDS Judge, SequencesExt

CONSTANTS MaxRuns, MaxFail

\* fs: the things there with the number of the run that wrote them (0: there before), as a function on keys
VARIABLES fs, hist, last, i, done
vars == <<fs, hist, last, i, done>>
----------------------------------------------------------------------------
Names == {"alpha", "beta"}
Formats == {"csv", "csv-shp", "shp", "geojson", "nc", "ocgis", "meta-ocgis"}
Silent == {"ocgis", "meta-ocgis"}                  \* nothing is written
Dir(p) == <<"dir", p, "">>
File(p, n) == <<"file", p, n>>
Parts(op) == CASE op.fmt = "csv" -> {"csv"} [] op.fmt = "nc" -> {"nc"}
    [] op.fmt = "csv-shp" -> {"csv", "shp/gid"} \cup (IF op.geom THEN {"shp/ugid"} ELSE {})
    [] op.fmt = "shp" -> {"shp"} \cup (IF op.geom THEN {"ugid"} ELSE {})
    [] op.fmt = "geojson" -> {"json"} \cup (IF op.geom THEN {"ugid"} ELSE {})
    [] OTHER -> {}
Own(op) == IF op.fmt \in Silent THEN {} ELSE IF op.aux THEN {Dir(op.prefix)} ELSE {File(op.prefix, n) : n \in Parts(op)}
There(f) == DOMAIN f
Refused(f, op) == ~op.over /\ Own(op) \cap There(f) # {}
Without(f, S) == [k \in There(f) \ S |-> f[k]]
With(f, S, g) == [k \in There(f) \cup S |-> IF k \in S THEN g ELSE f[k]]
\* the results of a run: of a failure without a folder parts may be left
After(f, op, g) ==
  IF Refused(f, op) THEN {f}
  ELSE IF op.fail = 0 THEN {With(f, Own(op), g)}
  ELSE IF op.aux THEN {Without(f, Own(op))}
  ELSE {With(Without(f, S), T, g) : S \in SUBSET Own(op), T \in SUBSET Own(op)}

----------------------------------------------------------------------------
OpsOf(p, fm, a, o, g, fl) == [prefix |-> p, fmt |-> fm, aux |-> a, over |-> o, geom |-> g, fail |-> fl]
Keys == {Dir(p) : p \in Names} \cup {File(p, n) : p \in Names, n \in {"csv", "nc", "shp", "json", "ugid", "shp/ugid", "shp/gid"}} \cup {<<"other", "", "keep.txt">>}
Some == {Dir("alpha"), File("alpha", "csv"), File("alpha", "ugid")}
Init == /\ \E S \in SUBSET Some : fs = [k \in S \cup {<<"other", "", "keep.txt">>} |-> 0]
        /\ hist = <<>> /\ last = <<>> /\ i = 0 /\ done = FALSE
Next == /\ Len(hist) < MaxRuns
        /\ \E p \in Names, fm \in {"csv", "shp", "ocgis"}, a, o \in BOOLEAN, fl \in {0, 1} :
             LET op == OpsOf(p, fm, a, o, TRUE, fl) IN
             \E g \in After(fs, op, Len(hist) + 1) : fs' = g /\ hist' = Append(hist, op) /\ last' = <<fs>>
        /\ UNCHANGED <<i, done>>
View == <<fs, last, IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)], Len(hist)>> >>
Op == hist[Len(hist)]
\* what existed before and is not the run's own is there unchanged; nothing else appears
Untouched == hist # <<>> => \A k \in There(last[1]) \ Own(Op) : k \in There(fs) /\ fs[k] = last[1][k]
NothingElse == hist # <<>> => There(fs) \subseteq There(last[1]) \cup Own(Op)
\* without overwriting nothing that was there is lost or replaced
Safe == hist # <<>> /\ ~Op.over => \A k \in There(last[1]) : k \in There(fs) /\ fs[k] = last[1][k]
Folder == hist # <<>> /\ Op.fail = 1 /\ Op.aux /\ Op.fmt \notin Silent /\ ~Refused(last[1], Op) => Dir(Op.prefix) \notin There(fs)
Complete == hist # <<>> /\ Op.fail = 0 /\ ~Refused(last[1], Op) => \A k \in Own(Op) : k \in There(fs) /\ fs[k] = Len(hist)

\* cases: what is there before, and runs
RandOp(q) == [prefix |-> RandomElement({"alpha", "alpha", "alpha", "beta"}), fmt |-> RandomElement(Formats), aux |-> RandomElement(BOOLEAN), over |-> RandomElement(1..5) <= 2,
              geom |-> RandomElement(BOOLEAN), fail |-> IF RandomElement(1..5) <= 2 THEN RandomElement(1..MaxFail) ELSE 0,
              how |-> RandomElement({"callback", "callback", "write", "written", "interrupt"}), filelog |-> RandomElement(BOOLEAN), verbose |-> RandomElement(1..4) = 1, debug |-> RandomElement(BOOLEAN),
              bad |-> IF RandomElement(1..12) = 1 THEN RandomElement({"", ".", "..", "alpha/beta"}) ELSE "no"]
RandomUser(q) == [user |-> <<"none", "none", "file", "handler">>[RandomElement(1..(4 + 0 * Len(q)))], capture |-> RandomElement(0..(1 + 0 * Len(q))) = 1]
RandomThere(q) == {k \in Keys : RandomElement(1..(6 + 0 * Len(q))) = 1}
GenInit == fs = <<>> /\ hist = <<>> /\ last = <<>> /\ i = 0 /\ done = FALSE
GenNext ==
  CASE last = <<>> -> /\ \E S \in {RandomThere(hist)} : fs' = S
                      /\ \E u \in {RandomUser(hist)} : last' = <<u>>
                      /\ UNCHANGED <<hist, i, done>>
    [] Len(hist) < MaxRuns -> \E op \in {RandOp(hist)} : hist' = Append(hist, TLCEval(op)) /\ UNCHANGED <<fs, last, i, done>>
    [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<fs, hist, last, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([there |-> SetToSeq(fs), user |-> last[1], runs |-> hist])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging.  r.first and each step's seen: sequences of [key, id]; ids differ where contents differ
Fun(s) == [k \in {s[n].key : n \in 1..Len(s)} |-> (CHOOSE n \in 1..Len(s) : s[n].key = k)]
Ids(s) == LET f == Fun(s) IN [k \in DOMAIN f |-> s[f[k]].id]
\* what must be in a folder, prefix left out; side files of shapes go unnamed
InFolder(op) == {"." \o x : x \in Parts(op) \cap {"csv", "nc", "shp", "json"}} \cup {"_metadata.txt", "_did.csv", "_source_metadata.txt"}
   \cup (IF "ugid" \in Parts(op) THEN {"_ugid.shp"} ELSE {}) \cup (IF "shp/ugid" \in Parts(op) THEN {"shp/_ugid.shp"} ELSE {})
   \cup (IF "shp/gid" \in Parts(op) THEN {"shp/_gid.shp"} ELSE {}) \cup (IF op.filelog THEN {"logs/-rank-0.log"} ELSE {})
ReturnOf(op) == CASE op.fmt = "geojson" -> ".json" [] op.fmt = "csv-shp" -> ".csv" [] OTHER -> "." \o op.fmt
StepFail(b, op, s) ==
  LET f == Ids(b) g == Ids(s.seen) own == Own(op)
      settings == <<<<"settings", s.settings = <<>> >>, <<"logging", s.logging = <<>> >>, <<"request", s.request>> >> IN
  Broken(settings) \cup
  (IF op.bad # "no" THEN Broken(<<<<"bad-prefix", s.outcome = "refused">>, <<"bad-changes", g = f>> >>)
   ELSE IF Refused(f, op) THEN Broken(<<<<"not-refused", s.outcome = "refused" \/ (s.injected /\ s.outcome = "injected")>>, <<"refused-changes", g = f>> >>)
   ELSE Broken(<<
     <<"untouched", \A k \in DOMAIN f \ own : k \in DOMAIN g /\ g[k] = f[k]>>,
     <<"nothing-else", DOMAIN g \subseteq DOMAIN f \cup own>> >>)
     \cup (IF s.injected THEN Broken(<<<<"error-kept", s.outcome = "injected">>, <<"folder", op.aux => own \cap DOMAIN g = {}>> >>)
           ELSE Broken(<<
             <<"fails", s.outcome = "done">>,
             <<"complete", own \subseteq DOMAIN g>>,
             <<"replaced", \A k \in own \cap DOMAIN f \cap DOMAIN g : g[k] # f[k]>>,
             <<"folder-contents", (op.aux /\ own # {}) => InFolder(op) \subseteq Rng(s.inside)>>,
             <<"foreign", s.foreign = <<>> >>,
             <<"rows", s.rows \in {-1, s.wantrows}>>,
             <<"returned", own # {} => s.returned = (IF op.aux THEN "dir/" ELSE "") \o ReturnOf(op)>> >>)))
Fail(r) == UNION {{<<n, c>> : c \in StepFail(IF n = 1 THEN r.first ELSE r.steps[n - 1].seen, r.runs[n], r.steps[n])} : n \in 1..Len(r.steps)}
   \cup (IF Len(r.steps) # Len(r.runs) THEN {"steps"} ELSE {})
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ fs = <<>> /\ hist = <<>> /\ last = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<fs, hist, last, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
