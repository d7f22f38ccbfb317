----------------------------- MODULE Structure -----------------------------
(* D03.  A heap of collections: which variables they hold, on which dimensions, which variable bounds which, tags, the  *)
(* variable filling the level role and the nested collections.  Operations that are refused leave everything alone.     *)
EXTENDS Judge, SequencesExt, Randomization

CONSTANTS MaxOps, HasRole, Names, BNames, DNames, Tags, KNames, MaxHeap

VARIABLES heap, hist, i, done

Cut(f, S) == [x \in S |-> f[x]]
Var(dims, b) == [dims |-> dims, bnd |-> b]
BaseLen(d) == CASE d = "x" -> 2 [] d = "y" -> 3 [] d = "z" -> 4 [] d = "nb" -> 2 [] OTHER -> 5
Base == [alive |-> TRUE,
         vars |-> [v \in {"a", "p", "b", "s"} |-> CASE v = "a" -> Var(<<"x">>, "p") [] v = "p" -> Var(<<"x", "nb">>, "")
                                                    [] v = "b" -> Var(<<"x", "y">>, "") [] OTHER -> Var(<<>>, "")],
         dims |-> [d \in {"x", "y", "nb"} |-> BaseLen(d)],
         tags |-> [t \in {"data"} |-> {"b"}], role |-> "", kids |-> {}]

Used(vs) == UNION {Rng(vs[n].dims) : n \in DOMAIN vs}
Unlink(vs, gone) == [n \in DOMAIN vs |-> [vs[n] EXCEPT !.bnd = IF @ \in gone THEN "" ELSE @]]
\* o without the variables named in gone; their dimensions go where nobody else needs them
Without(o, gone) ==
    LET vs == Unlink(Cut(o.vars, DOMAIN o.vars \ gone), gone)
        loose == UNION {Rng(o.vars[n].dims) : n \in gone} \ Used(vs) IN
    [o EXCEPT !.vars = vs, !.dims = Cut(o.dims, DOMAIN o.dims \ loose),
              !.tags = [t \in DOMAIN o.tags |-> o.tags[t] \ gone], !.role = IF @ \in gone THEN "" ELSE @]
\* o with only the variables named in kept, and only their dimensions
Only(o, kept) ==
    LET vs == Unlink(Cut(o.vars, kept), DOMAIN o.vars \ kept) IN
    [o EXCEPT !.vars = vs, !.dims = Cut(o.dims, Used(vs)), !.tags = [t \in DOMAIN o.tags |-> o.tags[t] \cap kept],
              !.role = IF @ \in kept THEN @ ELSE ""]
WithB(o, n) == {n} \cup (IF o.vars[n].bnd = "" THEN {} ELSE {o.vars[n].bnd})
New(op) == [v \in {op.name} \cup (IF op.bname = "" THEN {} ELSE {op.bname}) |->
              IF v = op.name THEN Var(op.dims, op.bname) ELSE Var(Append(op.dims, "nb"), "")]
Lens(op) == [d \in Rng(op.dims) \cup (IF op.bname = "" THEN {} ELSE {"nb"}) |-> BaseLen(d) + (IF d = op.off THEN 1 ELSE 0)]
Clash(o, op) == \E d \in DOMAIN Lens(op) \cap DOMAIN o.dims : Lens(op)[d] # o.dims[d]
Put(o, op) == [o EXCEPT !.vars = New(op) @@ o.vars, !.dims = Lens(op) @@ o.dims]
Ren(S, a, b) == IF a \in S THEN (S \ {a}) \cup {b} ELSE S
RenN(n, a, b) == IF n = a THEN b ELSE n

Kind(op) == op.op
OkOf(o, op) ==
    CASE op.op = "add" -> ~Clash(o, op) /\ (op.force \/ DOMAIN New(op) \cap DOMAIN o.vars = {})
      [] op.op \in {"remove", "extract", "dropbounds", "role", "rename"} -> op.name \in DOMAIN o.vars
      [] op.op = "setbounds" -> op.name \in DOMAIN o.vars /\ (op.force \/ op.bname \notin DOMAIN o.vars)
                                /\ ~(\E d \in {"nb"} \cap DOMAIN o.dims : op.off = "nb")
      [] op.op = "level" -> ~Clash(Without(o, IF o.role = "" THEN {} ELSE WithB(o, o.role)), op)
      [] op.op = "tag" -> op.to \notin DOMAIN o.tags \/ op.name \notin o.tags[op.to]
      [] op.op = "newtag" -> op.to \notin DOMAIN o.tags
      [] op.op = "rendim" -> op.name \in DOMAIN o.dims
      [] op.op = "child" -> op.force \/ op.to \notin o.kids
      [] OTHER -> TRUE

\* Step gives the heap after op and whether op is to be refused.
Eff(h, op) ==
    LET o == h[op.obj]
        upd(x) == [h EXCEPT ![op.obj] = x] IN
    CASE op.op = "add" -> upd(Put(o, op))
      [] op.op = "remove" ->
           LET gone == IF op.flag THEN WithB(o, op.name) ELSE {op.name} IN Append(upd(Without(o, gone)), Only(o, gone))
      [] op.op = "extract" ->
           LET kept == IF op.flag THEN WithB(o, op.name) ELSE {op.name} IN
           Append(IF op.force THEN upd(Without(o, WithB(o, op.name))) ELSE h, Only(o, kept))
      [] op.op \in {"copy", "varcopy"} -> Append(h, o)
      [] op.op = "rename" ->
           upd([o EXCEPT !.vars = [n \in Ren(DOMAIN o.vars, op.name, op.to) |->
                                      LET v == o.vars[IF n = op.to THEN op.name ELSE n] IN [v EXCEPT !.bnd = RenN(@, op.name, op.to)]],
                         !.role = RenN(@, op.name, op.to)])   \* tags keep the names they were given
      [] op.op = "setbounds" ->
           upd([o EXCEPT !.vars = (op.bname :> Var(Append(o.vars[op.name].dims, "nb"), "")) @@
                                  [o.vars EXCEPT ![op.name].bnd = op.bname],
                         !.dims = ("nb" :> BaseLen("nb")) @@ o.dims])
      [] op.op = "dropbounds" ->
           LET b == o.vars[op.name].bnd IN
           IF b = "" THEN h
           ELSE upd([o EXCEPT !.vars = Unlink(Cut(o.vars, DOMAIN o.vars \ {b}), {b}), !.tags = [t \in DOMAIN o.tags |-> o.tags[t] \ {b}],
                              !.role = IF @ = b THEN "" ELSE @])
      [] op.op = "tag" -> upd([o EXCEPT !.tags = (op.to :> ((IF op.to \in DOMAIN o.tags THEN o.tags[op.to] ELSE {}) \cup {op.name})) @@ @])
      [] op.op = "newtag" -> upd([o EXCEPT !.tags = (op.to :> {}) @@ @])
      [] op.op = "rendim" ->
           upd([o EXCEPT !.dims = [d \in Ren(DOMAIN o.dims, op.name, op.to) |-> o.dims[IF d = op.to THEN op.name ELSE d]],
                         !.vars = [n \in DOMAIN o.vars |-> [o.vars[n] EXCEPT !.dims = [k \in 1..Len(o.vars[n].dims) |-> RenN(o.vars[n].dims[k], op.name, op.to)]]]])
      [] op.op = "child" -> upd([o EXCEPT !.kids = @ \cup {op.to}])
      [] op.op = "renchild" -> upd([o EXCEPT !.kids = Ren(@, op.name, op.to)])
      [] op.op = "role" -> upd([o EXCEPT !.role = op.name])
      [] op.op = "level" ->
           LET w == Without(o, IF o.role = "" THEN {} ELSE WithB(o, o.role)) IN upd([Put(w, op) EXCEPT !.role = op.name])
      [] op.op = "move" ->     \* a variable extracted before goes into another collection
           LET src == h[op.other] IN
           [h EXCEPT ![op.obj].vars = src.vars @@ o.vars, ![op.obj].dims = src.dims @@ o.dims, ![op.other].alive = FALSE]
Refused(h, op) == IF op.op = "move"
    THEN \/ (~op.force /\ DOMAIN h[op.other].vars \cap DOMAIN h[op.obj].vars # {})
         \/ \E d \in DOMAIN h[op.other].dims \cap DOMAIN h[op.obj].dims : h[op.other].dims[d] # h[op.obj].dims[d]
    ELSE ~OkOf(h[op.obj], op)
Step(h, op) == IF Refused(h, op) THEN h ELSE Eff(h, op)

----------------------------------------------------------------------------
Op(k, o, n, dims, off, b, f, g, to, oth) ==
    [op |-> k, obj |-> o, name |-> n, dims |-> dims, off |-> off, bname |-> b, force |-> f, flag |-> g, to |-> to, other |-> oth]
Init == heap = <<Base>> /\ hist = <<>> /\ i = 0 /\ done = FALSE
Live == {k \in 1..Len(heap) : heap[k].alive}

\* What the histories do not do: force a conflicting dimension length, rename onto a name in use, bound a variable with
\* a variable that is not its own bounds, make anything but a plain variable the level.
Fine(h, op) ==
    LET o == h[op.obj] IN
    /\ op.op \in {"add", "level"} =>
        /\ (op.op = "level" \/ op.force) => ~Clash(o, op)
        /\ op.op = "add" => (op.force => o.role \notin DOMAIN New(op))
        /\ op.force => \A v \in DOMAIN New(op) \cap DOMAIN o.vars : Len(o.vars[v].dims) = Len(New(op)[v].dims)
                          /\ (v = op.bname => o.vars[v].bnd = "") /\ \A w \in DOMAIN o.vars \ {op.name} : o.vars[w].bnd # v
    /\ op.op = "level" => /\ Len(op.dims) = 1
                          /\ \A v \in DOMAIN New(op) : v \notin (DOMAIN o.vars \ (IF o.role = "" THEN {} ELSE WithB(o, o.role)))
    /\ op.op = "rename" => op.to \notin DOMAIN o.vars /\ \A t \in DOMAIN o.tags : op.name \notin o.tags[t]
    /\ (op.op = "setbounds" /\ op.name \in DOMAIN o.vars) =>
        /\ (op.bname \in DOMAIN o.vars) => (op.bname = o.vars[op.name].bnd /\ \A w \in DOMAIN o.vars \ {op.name} : o.vars[w].bnd # op.bname)
                                          \/ ~op.force
        /\ op.bname # op.name /\ Len(o.vars[op.name].dims) = 1 /\ op.off \in {"", "nb"} /\ o.vars[op.name].dims # <<"nb">>
        /\ op.off = "nb" => "nb" \in DOMAIN o.dims /\ ~op.force
    /\ op.op = "dropbounds" => op.name \in DOMAIN o.vars
    /\ op.op = "role" => HasRole /\ op.name \in DOMAIN o.vars /\ Len(o.vars[op.name].dims) = 1
    /\ op.op = "level" => HasRole
    /\ op.op = "tag" => op.name \in DOMAIN o.vars
    /\ op.op = "rendim" => op.to \notin DOMAIN o.dims
    /\ op.op = "renchild" => op.name \in o.kids /\ op.to \notin o.kids
    /\ op.op = "move" => /\ op.other # op.obj /\ op.other \in 1..Len(h) /\ h[op.other].alive
                         /\ Cardinality(DOMAIN h[op.other].vars) \in 1..2 /\ h[op.other].role = "" /\ h[op.other].kids = {}
                         /\ \A v \in DOMAIN h[op.other].vars : \A t \in DOMAIN h[op.other].tags : v \notin h[op.other].tags[t]
                         /\ op.force => DOMAIN h[op.other].vars \cap DOMAIN o.vars = {} /\ ~Refused(h, op)
    /\ op.op \in {"remove", "extract", "copy", "varcopy"} => Len(h) < MaxHeap
    /\ op.op = "varcopy" => DOMAIN o.vars # {}

Do(op) == /\ heap' = Step(heap, op)
          /\ hist' = Append(hist, op @@ [refused |-> Refused(heap, op)])
          /\ UNCHANGED <<i, done>>
Try(op) == Fine(heap, op) /\ Do(op)
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Live :
            \/ \E n \in Names, b \in BNames \cup {""}, d \in DNames, f \in BOOLEAN : Try(Op("add", o, n, <<d>>, "", b, f, FALSE, "", 0))
            \/ \E n \in Names \cup BNames, f \in BOOLEAN : Try(Op("remove", o, n, <<>>, "", "", FALSE, f, "", 0))
            \/ \E n \in Names \cup BNames, f \in BOOLEAN, g \in BOOLEAN : Try(Op("extract", o, n, <<>>, "", "", f, g, "", 0))
            \/ Try(Op("copy", o, "", <<>>, "", "", FALSE, FALSE, "", 0))
            \/ \E n \in Names \cup BNames, t \in Names \cup BNames : n \in DOMAIN heap[o].vars /\ Try(Op("rename", o, n, <<>>, "", "", FALSE, FALSE, t, 0))
            \/ \E n \in Names, b \in BNames, f \in BOOLEAN : Try(Op("setbounds", o, n, <<>>, "", b, f, FALSE, "", 0))
            \/ \E n \in Names : Try(Op("dropbounds", o, n, <<>>, "", "", FALSE, FALSE, "", 0))
            \/ \E n \in Names, t \in Tags : Try(Op("tag", o, n, <<>>, "", "", FALSE, FALSE, t, 0))
            \/ \E n \in DNames, t \in DNames : Try(Op("rendim", o, n, <<>>, "", "", FALSE, FALSE, t, 0))
            \/ \E n \in Names : Try(Op("role", o, n, <<>>, "", "", FALSE, FALSE, "", 0))
            \/ \E p \in Live, f \in BOOLEAN : Try(Op("move", o, "", <<>>, "", "", f, FALSE, "", p))
Rand(S) == {RandomElement(S)}
Kinds == <<"add", "add", "add", "remove", "remove", "extract", "extract", "copy", "varcopy", "rename", "rename", "setbounds", "setbounds",
           "dropbounds", "tag", "newtag", "rendim", "child", "renchild", "role", "level", "move">>
OffOps == {"add", "setbounds"}
GenNext == /\ Len(hist) < MaxOps
    /\ \E k \in Rand(1..Len(Kinds)), o \in Rand(Live), n \in Rand(Names \cup BNames), n2 \in Rand(Names \cup BNames), b \in Rand(BNames), p \in Rand(1..6),
          d \in Rand(DNames), e \in Rand(DNames), c \in Rand(0..7), f \in Rand(BOOLEAN), g \in Rand(BOOLEAN), t \in Rand(Tags), kn \in Rand(KNames), km \in Rand(KNames),
          other \in Rand(Live) :
       LET K == Kinds[k]
           dims == IF c = 0 THEN <<>> ELSE IF c < 5 \/ d = e THEN <<d>> ELSE <<d, e>>
           off == IF K \in OffOps /\ p = 1 THEN (IF K = "setbounds" THEN "nb" ELSE d) ELSE ""
           iname == IF DOMAIN heap[o].vars = {} THEN n ELSE IF p = 2 THEN n ELSE RandomElement(DOMAIN heap[o].vars)
           din == IF p = 2 \/ DOMAIN heap[o].dims = {} THEN d ELSE RandomElement(DOMAIN heap[o].dims)
           name == IF K = "add" \/ K = "level" THEN n ELSE IF K = "rendim" THEN din
                   ELSE IF K = "renchild" THEN (IF heap[o].kids = {} THEN kn ELSE RandomElement(heap[o].kids)) ELSE iname
           to == CASE K = "rename" -> n2 [] K \in {"tag", "newtag"} -> t [] K = "rendim" -> e [] K \in {"child", "renchild"} -> km [] OTHER -> ""
           bname == IF K = "setbounds" THEN (IF p < 3 /\ iname \in DOMAIN heap[o].vars /\ heap[o].vars[iname].bnd # "" THEN heap[o].vars[iname].bnd ELSE b)
                    ELSE IF K \in {"add", "level"} /\ g /\ Len(dims) = 1 /\ n # b THEN b ELSE "" IN
       \E op \in {Op(K, o, name, IF K \in {"add", "level"} THEN dims ELSE <<>>, off, bname, f, g, to, other)} :
          IF Fine(heap, op) THEN Do(op) ELSE UNCHANGED <<heap, hist, i, done>>
Emit == (Len(hist) > 0 /\ (Len(hist) = MaxOps \/ TLCGet("level") >= 2 * MaxOps)) => PrintT(<<"CASE", ToJson([role |-> HasRole, ops |-> hist])>>)
View == heap

\* what the property promises, in every reachable state
Consistent == \A k \in Live : LET o == heap[k] IN
    /\ \A n \in DOMAIN o.vars : Rng(o.vars[n].dims) \subseteq DOMAIN o.dims
    /\ \A n \in DOMAIN o.vars : o.vars[n].bnd # "" => o.vars[n].bnd \in DOMAIN o.vars
    /\ \A t \in DOMAIN o.tags : o.tags[t] \subseteq DOMAIN o.vars
    /\ o.role # "" => o.role \in DOMAIN o.vars
RefusedKeeps == [][hist'[Len(hist')].refused => heap' = heap]_<<heap, hist>>
OthersKept == [][LET op == hist'[Len(hist')] IN \A k \in 1..Len(heap) : heap'[k] # heap[k] => k = op.obj \/ (op.op = "move" /\ k = op.other)]_<<heap, hist>>

----------------------------------------------------------------------------
\* A collection as the real code shows it: sequences of records.
Obs(o, x, tag) ==
    LET keys == {o.vars[k].key : k \in 1..Len(o.vars)}
        vk(n) == o.vars[CHOOSE k \in 1..Len(o.vars) : o.vars[k].key = n]
        dk == {o.dims[k].key : k \in 1..Len(o.dims)}
        both == keys \cap DOMAIN x.vars IN
    Broken(<<
      <<tag \o "stored-under-own-name", \A k \in 1..Len(o.vars) : o.vars[k].key = o.vars[k].name>>,
      <<tag \o "reports-this-collection-as-parent", \A k \in 1..Len(o.vars) : o.vars[k].parent>>,
      <<tag \o "variables", keys = DOMAIN x.vars /\ Len(o.vars) = Cardinality(keys)>>,
      <<tag \o "dimensions-of-variables", \A n \in both : vk(n).dims = x.vars[n].dims>>,
      <<tag \o "dimension-lengths", \A n \in both : Rng(x.vars[n].dims) \subseteq DOMAIN x.dims => vk(n).lens = [j \in 1..Len(x.vars[n].dims) |-> x.dims[x.vars[n].dims[j]]]
                                                     /\ vk(n).shape = vk(n).lens>>,
      <<tag \o "bounds-links", \A n \in both : vk(n).bnd = x.vars[n].bnd>>,
      <<tag \o "bounds-attribute", \A n \in both : vk(n).battr = x.vars[n].bnd>>,
      <<tag \o "collection-dimensions", dk = DOMAIN x.dims /\ \A k \in 1..Len(o.dims) : o.dims[k].key = o.dims[k].name
                                         /\ (o.dims[k].key \in DOMAIN x.dims => o.dims[k].len = x.dims[o.dims[k].key])>>,
      <<tag \o "tags", {t \in {o.tags[k].tag : k \in 1..Len(o.tags)} : TRUE} = DOMAIN x.tags
                        /\ \A k \in 1..Len(o.tags) : o.tags[k].tag \in DOMAIN x.tags =>
                              Rng(o.tags[k].names) = x.tags[o.tags[k].tag] /\ Len(o.tags[k].names) = Cardinality(x.tags[o.tags[k].tag])>>,
      <<tag \o "role", o.role = x.role>>,
      <<tag \o "role-bounds", x.role = "" \/ x.role \notin DOMAIN x.vars \/ o.rolebnd = x.vars[x.role].bnd>>,
      <<tag \o "role-dimension", x.role = "" \/ x.role \notin DOMAIN x.vars \/ o.roledims = x.vars[x.role].dims>>,
      <<tag \o "children", Rng(o.kids) = x.kids /\ Len(o.kids) = Cardinality(x.kids)>>,
      <<tag \o "children-parent-and-name", o.kidsok>> >>)
RECURSIVE Walk(_, _, _)
Walk(h, ops, st) == IF ops = <<>> \/ st = <<>> THEN {}
    ELSE LET op == Head(ops)  nh == TLCEval(Step(h, op))  s == Head(st)
             f == UNION {IF nh[k].alive THEN Obs(s.heap[k], nh[k], op.op \o (IF op.refused THEN "-refused" ELSE "") \o
                                                                   (IF k = op.obj THEN ":" ELSE IF k > Len(h) THEN "-result:" ELSE "-elsewhere:")) ELSE {} : k \in 1..Len(nh)}
                  \cup Broken(<< <<op.op \o ":refused-exactly-when-it-must-be", s.refused = op.refused>>,
                                 <<op.op \o ":incoming-left-alone-when-refused", s.incoming>> >>) IN
         IF f # {} THEN f ELSE Walk(nh, Tail(ops), Tail(st))
Fail(r) == IF ~r.ok THEN {"call-succeeds:" \o r.err} ELSE Walk(<<Base>>, r.ops, r.states)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ heap = <<>> /\ hist = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<heap, hist, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
