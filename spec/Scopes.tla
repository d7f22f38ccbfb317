------------------------------- MODULE Scopes -------------------------------
(* M03.  The scope stack of the virtual machine.  All processes run the same program; a process outside the innermost   *)
(* scope sits out until that scope ends.  Members are world ranks in the scope's own numbering.                         *)
EXTENDS Judge, SequencesExt

CONSTANTS N, ScopeNames, MaxOps
VARIABLES stack,         \* sequence of [name, members, by]: the scopes entered (by = "scope" or "named")
          named,         \* sequence of [name, members]: the communicators that exist under a name
          hist, i, done
vars == <<stack, named, hist, i, done>>

World == [k \in 1..N |-> k - 1]
Current(st) == IF st = <<>> THEN [name |-> "", members |-> World] ELSE Last(st)
Has(nm, n) == \E k \in 1..Len(nm) : nm[k].name = n
Members(nm, n) == nm[CHOOSE k \in 1..Len(nm) : nm[k].name = n].members
Drop(nm, n) == SelectSeq(nm, LAMBDA e : e.name # n)
Take(cur, ranks) == [k \in 1..Len(ranks) |-> cur[ranks[k] + 1]]

\* [stack, named, err]: the state after an operation and the error it raises
Apply(st, nm, op) ==
    LET cur == Current(st).members IN
    CASE op.op = "enter" -> IF Has(nm, op.name) THEN [stack |-> st, named |-> nm, err |-> "SubcommAlreadyCreatedError"]
            ELSE LET m == Take(cur, op.ranks) IN
                 [stack |-> Append(st, [name |-> op.name, members |-> m, by |-> "scope"]),
                  named |-> Append(nm, [name |-> op.name, members |-> m]), err |-> ""]
      [] op.op = "named" -> [stack |-> Append(st, [name |-> op.name, members |-> Members(nm, op.name), by |-> "named"]),
                             named |-> nm, err |-> ""]
      [] op.op \in {"exit", "fail"} -> LET t == Last(st) IN
            [stack |-> Front(st), named |-> IF t.by = "scope" THEN Drop(nm, t.name) ELSE nm, err |-> IF op.op = "fail" THEN "Boom" ELSE ""]
      [] op.op = "create" -> IF Has(nm, op.name) /\ ~op.clobber THEN [stack |-> st, named |-> nm, err |-> "SubcommAlreadyCreatedError"]
            ELSE [stack |-> st, named |-> Append(Drop(nm, op.name), [name |-> op.name, members |-> Take(cur, op.ranks)]), err |-> ""]
      [] op.op = "free" -> IF Has(nm, op.name) THEN [stack |-> st, named |-> Drop(nm, op.name), err |-> ""]
            ELSE [stack |-> st, named |-> nm, err |-> "SubcommNotFoundError"]

RankSeqs(n) == UNION {{s \in [1..m -> 0..(n - 1)] : \A a, b \in 1..m : a # b => s[a] # s[b]} : m \in 0..n}
Op(k, nm, rk, c) == [op |-> k, name |-> nm, ranks |-> rk, clobber |-> c]
InUse(n) == \E k \in 1..Len(stack) : stack[k].name = n
\* what a correct program may do here; every current member does it.  A communicator without members can only be left.
Legal(op) == LET cur == Current(stack).members IN
    CASE op.op = "enter" -> Len(cur) > 0 /\ Rng(op.ranks) \subseteq 0..(Len(cur) - 1)
      [] op.op = "named" -> Len(cur) > 0 /\ Has(named, op.name) /\ Rng(Members(named, op.name)) \subseteq Rng(cur)
      [] op.op \in {"exit", "fail"} -> stack # <<>>
      [] op.op = "create" -> stack = <<>> /\ Rng(op.ranks) \subseteq 0..(N - 1)
      [] op.op = "free" -> stack = <<>>
Do(op) == LET t == Apply(stack, named, op) IN
    stack' = t.stack /\ named' = t.named /\ hist' = Append(hist, op) /\ UNCHANGED <<i, done>>
Init == stack = <<>> /\ named = <<>> /\ hist = <<>> /\ i = 0 /\ done = FALSE
AllOps == {Op("enter", n, r, FALSE) : n \in ScopeNames, r \in RankSeqs(N)} \cup {Op("named", n, <<>>, FALSE) : n \in ScopeNames}
    \cup {Op("create", n, r, c) : n \in ScopeNames, r \in RankSeqs(N), c \in BOOLEAN} \cup {Op("free", n, <<>>, FALSE) : n \in ScopeNames}
    \cup {Op("exit", "", <<>>, FALSE), Op("fail", "", <<>>, FALSE)}
Next == Len(hist) < MaxOps /\ \E op \in AllOps : Legal(op) /\ Do(op)
Rand(S) == {RandomElement(S)}
Kinds(z) == IF Len(stack) >= MaxOps - Len(hist) THEN (IF z % 3 = 0 THEN "fail" ELSE "exit")
    ELSE CASE z < 5 -> "enter" [] z = 5 -> "create" [] z = 6 -> "named" [] z = 7 -> "free" [] z = 8 -> "exit" [] z = 9 -> "fail" [] z = 10 -> "create"
GenNext == /\ Len(hist) < MaxOps
    /\ \E z \in Rand(0..10), n \in Rand(ScopeNames), c \in Rand(BOOLEAN), m \in Rand(RankSeqs(Len(Current(stack).members))) :
       LET k == Kinds(z)  op == Op(k, IF k \in {"exit", "fail"} THEN "" ELSE n, IF k \in {"enter", "create"} THEN m ELSE <<>>, c /\ k = "create")
           other == IF stack = <<>> THEN Op("enter", n, m, FALSE) ELSE Op("exit", "", <<>>, FALSE) IN
       IF Legal(op) THEN Do(op) ELSE IF Legal(other) THEN Do(other) ELSE FALSE
Emit == Len(hist) = MaxOps /\ stack = <<>> => PrintT(<<"CASE", ToJson(hist)>>)
View == <<stack, named>>

Nested == \A k \in 2..Len(stack) : Rng(stack[k].members) \subseteq Rng(stack[k - 1].members)
Distinct == \A a, b \in 1..Len(named) : a # b => named[a].name # named[b].name
LiveWhileIn == \A k \in 1..Len(stack) : Has(named, stack[k].name)
Restored == [][Len(stack') < Len(stack) => stack' = Front(stack)]_vars

----------------------------------------------------------------------------
\* obs[rank][k]: what that process saw after operation k, sat out when it was not in the scope (-1 / empty)
RECURSIVE States(_, _, _)
States(st, nm, ops) == IF ops = <<>> THEN <<>>
    ELSE LET t == Apply(st, nm, Head(ops)) IN <<[s |-> t.stack, before |-> st, err |-> t.err]>> \o States(t.stack, t.named, Tail(ops))
PosIn(m, w) == CHOOSE k \in 1..Len(m) : m[k] = w
HistFail(r) == LET xs == States(<<>>, <<>>, r.ops) IN
    UNION {UNION {
        LET x == xs[k] o == r.obs[w][k] cur == Current(x.s) inb == (w - 1) \in Rng(Current(x.before).members)
            here == (w - 1) \in Rng(cur.members)
            \* after an exit everyone in the outer scope goes on; otherwise those in the scope before the operation see its effect
            active == IF r.ops[k].op \in {"exit", "fail"} THEN here ELSE inb IN
        Broken(<<
            <<r.ops[k].op \o "-takes-part", o.active = active>>,
            <<r.ops[k].op \o "-error", ~active \/ o.err = x.err>>,
            <<r.ops[k].op \o "-scope-name", ~active \/ o.name = cur.name>>,
            <<r.ops[k].op \o "-knows-whether-in", ~active \/ o.null = ~here>>,
            <<r.ops[k].op \o "-number", ~(active /\ here) \/ o.rank = PosIn(cur.members, w - 1) - 1>>,
            <<r.ops[k].op \o "-count", ~(active /\ here) \/ o.size = Len(cur.members)>>,
            <<r.ops[k].op \o "-members", ~(active /\ here) \/ o.members = cur.members>>,
            <<r.ops[k].op \o "-one-root", ~(active /\ here) \/ (o.roots = 1 /\ o.root = cur.members[1])>> >>)
        : k \in 1..Len(r.ops)} : w \in 1..r.n}
\* one process: scopes change nothing
SerialFail(r) == Broken(<< <<"serial-unchanged", \A k \in 1..Len(r.obs) : r.obs[k] = [rank |-> 0, size |-> 1, null |-> FALSE]>>,
    <<"serial-restores", r.names = r.expected>>, <<"serial-errors-pass", r.raised = r.threw>> >>)
Fail(r) == IF ~r.ok THEN {"completes:" \o r.err} ELSE IF r.kind = "serial" THEN SerialFail(r) ELSE HistFail(r)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ stack = <<>> /\ named = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<stack, named, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
