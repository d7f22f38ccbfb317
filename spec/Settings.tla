------------------------------ MODULE Settings ------------------------------
(* O04.  The global settings: a program override, the process environment and a default for each.                       *)
(* Values are opaque strings (their textual form); Conv is the conversion of an environment variable's text.            *)
EXTENDS Judge

CONSTANTS Settings,      \* sequence of [name, type, default, early]; an early setting reads the environment at start only
          Texts,         \* type -> sequence of [text, value] usable in the environment
          Overrides,     \* type -> sequence of values a program may set
          MaxOps
VARIABLES over,          \* name -> value set by the program, or "" when none
          envv,          \* name -> text in the environment, or "" when none
          seen,          \* the environment at the last start (early settings look only there)
          hist, i, done
vars == <<over, envv, seen, hist, i, done>>
Names == {Settings[k].name : k \in 1..Len(Settings)}
S(n) == Settings[CHOOSE k \in 1..Len(Settings) : Settings[k].name = n]
Conv(n, txt) == LET ts == Texts[S(n).type] IN ts[CHOOSE k \in 1..Len(ts) : ts[k].text = txt].value
Value(o, e, s, n) == IF o[n] # "" THEN o[n]
    ELSE LET from == IF S(n).early THEN s ELSE e IN IF from[n] # "" THEN Conv(n, from[n]) ELSE S(n).default
None == [n \in Names |-> ""]

Apply(st, op) ==         \* st = [over, env, seen]
    CASE op.op = "set" -> [st EXCEPT !.over[op.name] = op.val]
      [] op.op = "auto" -> [st EXCEPT !.over[op.name] = ""]
      [] op.op = "setenv" -> [st EXCEPT !.env[op.name] = op.val]
      [] op.op = "unsetenv" -> [st EXCEPT !.env[op.name] = ""]
      [] op.op = "reset" -> [over |-> None, env |-> st.env, seen |-> st.env]
      [] op.op = "unknown" -> st
      [] op.op = "cabinet" -> [st EXCEPT !.over["DIR_GEOMCABINET"] = op.val, !.over["DIR_SHPCABINET"] = op.val]
Start == [over |-> None, env |-> None, seen |-> None]

Init == over = None /\ envv = None /\ seen = None /\ hist = <<>> /\ i = 0 /\ done = FALSE
Do(op) == LET t == Apply([over |-> over, env |-> envv, seen |-> seen], op) IN
    over' = t.over /\ envv' = t.env /\ seen' = t.seen /\ hist' = Append(hist, op) /\ UNCHANGED <<i, done>>
Op(k, n, v) == [op |-> k, name |-> n, val |-> v]
Ops == UNION {{Op("set", n, Overrides[S(n).type][k]) : k \in 1..Len(Overrides[S(n).type])} : n \in Names}
    \cup UNION {{Op("setenv", n, Texts[S(n).type][k].text) : k \in 1..Len(Texts[S(n).type])} : n \in Names}
    \cup {Op("unsetenv", n, "") : n \in Names} \cup {Op("reset", "", "")}
    \cup {Op("auto", n, "") : n \in {n \in Names : ~S(n).early}}
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
More == {Op("unknown", "NOT_A_SETTING", "1"), Op("unknown", "overwrite", "1"), Op("unknown", "DIR_OUTPUTS", "1"), Op("reset", "", " ")}
    \cup (IF "DIR_GEOMCABINET" \in Names THEN {Op("cabinet", "", "/tmp/cab1")} ELSE {})
GenNext == Len(hist) < MaxOps /\ \E z \in {RandomElement(1..8)} : \E op \in {RandomElement(IF z = 1 THEN More ELSE Ops)} : Do(op)
Emit == Len(hist) = MaxOps => PrintT(<<"CASE", ToJson(hist)>>)
View == <<over, envv, seen>>

Only == [][LET op == hist'[Len(hist')] IN op.op \in {"set", "setenv", "unsetenv", "auto"} =>
    \A n \in Names \ {op.name} : Value(over', envv', seen', n) = Value(over, envv, seen, n)]_vars
OverrideWins == \A n \in Names : over[n] # "" => Value(over, envv, seen, n) = over[n]
ResetIsFresh == [][hist'[Len(hist')].op = "reset" =>
    \A n \in Names : Value(over', envv', seen', n) = Value(None, envv', envv', n)]_vars

----------------------------------------------------------------------------
Expected(st) == [k \in 1..Len(Settings) |-> Value(st.over, st.env, st.seen, Settings[k].name)]
RECURSIVE Walk(_, _, _)
Walk(st, ops, obs) == IF ops = <<>> THEN {}
    ELSE LET t == Apply(st, Head(ops)) x == Expected(t) o == Head(obs) IN
         UNION {Broken(<< <<Head(ops).op \o ":" \o Settings[k].name, o.values[k] = x[k]>> >>) : k \in 1..Len(Settings)}
         \cup Broken(<< <<"unknown-refused", o.refused = (Head(ops).op = "unknown")>>, <<"unknown-not-created", ~o.created>>,
                        <<"text-form-lists-settings", o.listed>> >>)
         \cup Walk(t, Tail(ops), Tail(obs))
\* a fresh process with the same environment
FreshFail(r) == LET st == [over |-> None, env |-> [n \in Names |-> IF n \in DOMAIN r.env THEN r.env[n] ELSE ""],
                           seen |-> [n \in Names |-> IF n \in DOMAIN r.env THEN r.env[n] ELSE ""]] IN
    UNION {Broken(<< <<"fresh:" \o Settings[k].name, r.values[k] = Expected(st)[k]>> >>) : k \in 1..Len(Settings)}
Fail(r) == IF ~r.ok THEN {"call-succeeds:" \o r.err}
           ELSE IF r.kind = "fresh" THEN FreshFail(r) ELSE Walk(Start, r.ops, r.obs) \cup Broken(<< <<"all-steps", Len(r.obs) = Len(r.ops)>> >>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ over = None /\ envv = None /\ seen = None /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<over, envv, seen, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
