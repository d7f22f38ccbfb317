--------------------------------- MODULE Expr ---------------------------------
(* C03.  Expressions of named variables: a string is read token by token (a stack machine, one transition per token); the     *)
(* tree of the expression says what it stands for.  Numbers are fractions; a value may also be masked, some number (too large *)
(* to follow or not a fraction) or unknown (perhaps masked).                                                                    *)
EXTENDS Judge, SequencesExt

CONSTANTS Names, Consts, MaxDepth, MaxVars, MaxSize, DimNames, MaxExprs

VARIABLES tree, toks, at, vals, stack, case, i, done

----------------------------------------------------------------------------
Masked == <<>>
Some == <<0>>
Unknown == <<0, 0, 0>>
Lim == 20000
IsQ(v) == Len(v) = 2
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 a == s * (n \div g) b == s * (d \div g) IN IF n = 0 THEN <<0, 1>> ELSE IF Abs(n) \div g > Lim \/ Abs(d) \div g > Lim THEN Some ELSE <<a, b>>
\* a masked operand gives a masked result; an unknown one an unknown one (unless the other is masked)
Lift(f(_, _), a, b) == IF a = Masked \/ b = Masked THEN Masked ELSE IF a = Unknown \/ b = Unknown THEN Unknown ELSE IF IsQ(a) /\ IsQ(b) THEN f(a, b) ELSE Some
Neg(a) == IF IsQ(a) THEN <<-a[1], a[2]>> ELSE a
Add(a, b) == LET f(x, y) == Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2]) IN Lift(f, a, b)
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET f(x, y) == Q(x[1] * y[1], x[2] * y[2]) IN Lift(f, a, b)
Div(a, b) == IF a = Masked \/ b = Masked THEN Masked ELSE IF IsQ(b) /\ b[1] = 0 THEN Masked ELSE IF ~IsQ(b) \/ ~IsQ(a) THEN Unknown ELSE LET f(x, y) == Q(x[1] * y[2], x[2] * y[1]) IN Lift(f, a, b)
AbsV(a) == IF IsQ(a) THEN <<Abs(a[1]), a[2]>> ELSE a
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN (IF a = Masked THEN Masked ELSE IF a = Unknown THEN Unknown ELSE <<1, 1>>) ELSE Mul(Pow(a, k - 1), a)
PowV(a, b) == IF b = Masked THEN Masked ELSE IF IsQ(b) /\ b[2] = 1 /\ b[1] \in 0..4 THEN Pow(a, b[1]) ELSE Unknown
\* logarithms of fractions stay exact inside exponentials: exp(log(x)) is written as one node of the tree
ExpV(a) == IF a = Masked \/ a = Unknown THEN a ELSE IF a = <<0, 1>> THEN <<1, 1>> ELSE IF IsQ(a) /\ a[1] <= 80 * a[2] THEN Some ELSE Unknown
LogV(a) == IF a = Masked \/ a = Unknown THEN a ELSE IF ~IsQ(a) THEN Unknown ELSE IF a[1] <= 0 THEN Masked ELSE IF a = <<1, 1>> THEN <<0, 1>> ELSE Some

\* trees: [k |-> kind, a, b (sub-trees as sequences of at most one), n (name or number)]
Leaf(n) == [k |-> "name", n |-> <<n>>, a |-> <<>>]
Num(n, d) == [k |-> "num", n |-> <<n, d>>, a |-> <<>>]
Bin(o, x, y) == TLCEval([k |-> o, n |-> <<>>, a |-> <<x, y>>])
Un(o, x) == TLCEval([k |-> o, n |-> <<>>, a |-> <<x>>])
RECURSIVE Value(_, _)
Value(t, env) ==
  LET x == Value(t.a[1], env) y == Value(t.a[2], env) IN
  CASE t.k = "name" -> env[t.n[1]]
    [] t.k = "num" -> t.n
    [] t.k = "+" -> Add(x, y) [] t.k = "-" -> Sub(x, y) [] t.k = "*" -> Mul(x, y) [] t.k = "/" -> Div(x, y) [] t.k = "**" -> PowV(x, y)
    [] t.k = "neg" -> Neg(x) [] t.k = "abs" -> AbsV(x) [] t.k = "exp" -> ExpV(x) [] t.k = "log" -> LogV(x) [] t.k = "power" -> PowV(x, y)
    \* log(exp(x)), exp(log(x)): back where it was, unless the number in between is out of reach
    [] t.k = "logexp" -> (IF IsQ(x) /\ (Abs(x[1]) > 20 * x[2]) THEN Unknown ELSE IF x = Some THEN Unknown ELSE x)
    [] t.k = "explog" -> (IF IsQ(x) THEN (IF x[1] <= 0 THEN Masked ELSE x) ELSE IF x = Some THEN Unknown ELSE x)
\* a token is [t |-> "num"/"name"/"func"/"op"/"("/")"/",", n |-> which]
T(t, n) == [t |-> t, n |-> n]
Prec(t) == CASE t.k \in {"+", "-"} -> 1 [] t.k \in {"*", "/"} -> 2 [] t.k = "neg" -> 3 [] t.k = "**" -> 4 [] OTHER -> 5
Bare(tk) == <<T("(", "")>> \o tk \o <<T(")", "")>>
Fun(f, tk) == <<T("func", f)>> \o Bare(tk)
RECURSIVE Text(_)
Par(t, need) == IF need THEN Bare(Text(t)) ELSE Text(t)
Text(t) ==
  CASE t.k = "name" -> <<T("name", t.n[1])>>
    [] t.k = "num" -> <<T("num", t.n)>>
    [] t.k \in {"+", "-", "*", "/"} -> Par(t.a[1], Prec(t.a[1]) < Prec(t)) \o <<T("op", t.k)>> \o Par(t.a[2], Prec(t.a[2]) <= Prec(t))
    [] t.k = "**" -> Par(t.a[1], Prec(t.a[1]) <= 4) \o <<T("op", "**")>> \o Par(t.a[2], Prec(t.a[2]) < 3)
    [] t.k = "neg" -> <<T("op", "-")>> \o Par(t.a[1], Prec(t.a[1]) < 3)
    [] t.k \in {"abs", "exp", "log"} -> Fun(t.k, Text(t.a[1]))
    [] t.k = "power" -> Fun("power", Text(t.a[1]) \o <<T(",", "")>> \o Text(t.a[2]))
    [] t.k = "logexp" -> Fun("log", Fun("exp", Text(t.a[1])))
    [] t.k = "explog" -> Fun("exp", Fun("log", Text(t.a[1])))

\* the machine: a stack of trees and one of what is pending
PrecOf(o) == CASE o \in {"+", "-"} -> 1 [] o \in {"*", "/"} -> 2 [] o = "neg" -> 3 [] o = "**" -> 4
Pop2(v, o) == SubSeq(v, 1, Len(v) - 2) \o <<Bin(o, v[Len(v) - 1], v[Len(v)])>>
Reduce1(v, o) == IF o = "neg" THEN SubSeq(v, 1, Len(v) - 1) \o <<Un("neg", v[Len(v)])>> ELSE Pop2(v, o)
RECURSIVE Reduce(_, _, _, _)
Reduce(v, s, p, strict) ==
  IF s = <<>> \/ s[Len(s)][1] # "op" \/ PrecOf(s[Len(s)][2]) < p \/ (strict /\ PrecOf(s[Len(s)][2]) = p) THEN <<v, s>>
  ELSE Reduce(Reduce1(v, s[Len(s)][2]), SubSeq(s, 1, Len(s) - 1), p, strict)
Call(v, f) == IF f = "power" THEN Pop2(v, "power") ELSE SubSeq(v, 1, Len(v) - 1) \o <<Un(f, v[Len(v)])>>
StartsOperand(n) == n = 1 \/ toks[n - 1].t \in {"op", "(", ","}
Eat(v, s, n) ==
  LET t == toks[n] IN
  CASE t.t = "num" -> <<Append(v, [k |-> "num", n |-> t.n, a |-> <<>>]), s>>
    [] t.t = "name" -> <<Append(v, Leaf(t.n)), s>>
    [] t.t = "func" -> <<v, Append(s, <<"func", t.n>>)>>
    [] t.t = "(" -> <<v, Append(s, <<"(", "">>)>>
    [] t.t = "," -> Reduce(v, s, 0, FALSE)
    [] t.t = ")" -> LET r == Reduce(v, s, 0, FALSE) q == SubSeq(r[2], 1, Len(r[2]) - 1) IN IF q # <<>> /\ q[Len(q)][1] = "func" THEN <<Call(r[1], q[Len(q)][2]), SubSeq(q, 1, Len(q) - 1)>> ELSE <<r[1], q>>
    [] t.t = "op" -> IF StartsOperand(n) THEN <<v, Append(s, <<"op", "neg">>)>>
                     ELSE LET r == Reduce(v, s, PrecOf(t.n), t.n = "**") IN <<r[1], Append(r[2], <<"op", t.n>>)>>
Read1 == /\ at < Len(toks) /\ LET r == Eat(vals, stack, at + 1) IN vals' = r[1] /\ stack' = r[2]
         /\ at' = at + 1 /\ UNCHANGED <<tree, toks, case, i, done>>
Finish == /\ at = Len(toks) /\ ~done /\ done' = TRUE /\ LET r == Reduce(vals, stack, 0, FALSE) IN vals' = r[1] /\ stack' = r[2]
          /\ UNCHANGED <<tree, toks, at, case, i>>
\* composed functions are one node of a written tree and two of a read one
RECURSIVE Flatten(_)
Flatten(t) == CASE t.k = "logexp" -> Un("log", Un("exp", Flatten(t.a[1]))) [] t.k = "explog" -> Un("exp", Un("log", Flatten(t.a[1])))
               [] OTHER -> [t EXCEPT !.a = [j \in 1..Len(t.a) |-> Flatten(t.a[j])]]
\* negative constants are written with a sign
Same == done => (stack = <<>> /\ vals = <<Flatten(tree)>>)

Lv0(z) == {Leaf(n) : n \in Names} \cup {Num(c, 1) : c \in Consts}
Over(S, U) == {Bin(o, x, y) : o \in {"+", "-", "*", "/", "**", "power"}, x \in S, y \in U}
Uns(S) == {Un(o, x) : o \in {"neg", "abs", "logexp"}, x \in S}
Lv1(z) == Lv0(z) \cup Over(Lv0(z), Lv0(z)) \cup Uns(Lv0(z))
Lv2(z) == Lv1(z) \cup Over(Lv1(z), Lv0(z)) \cup Over(Lv0(z), Lv1(z)) \cup Uns(Lv1(z))
Init == tree \in Lv2(0) /\ toks = Text(tree) /\ at = 0 /\ vals = <<>> /\ stack = <<>> /\ case = <<>> /\ i = 0 /\ done = FALSE
Next == Read1 \/ Finish

----------------------------------------------------------------------------
\* random cases
R(S) == RandomElement(S)
RECURSIVE Exact(_, _)
\* nothing here is rounded by floating point numbers
Exact(ns, d) == LET o == R({"name", "name", "num", "+", "-", "*", "+", "neg", "abs", "power", "**"}) IN
  IF d = 0 \/ o \in {"name", "num"} THEN (IF R(1..4) > 1 THEN Leaf(R(ns)) ELSE Num(R(0..5), R({1, 1, 2})))
  ELSE IF o \in {"neg", "abs"} THEN Un(o, Exact(ns, d - 1))
  ELSE IF o \in {"power", "**"} THEN Bin(o, Exact(ns, d - 1), Num(R({2, 2, 3}), 1))
  ELSE Bin(o, Exact(ns, d - 1), Exact(ns, d - 1))
RECURSIVE NamesIn(_)
NamesIn(t) == IF t.k = "name" THEN {t.n[1]} ELSE UNION {NamesIn(t.a[j]) : j \in 1..Len(t.a)}
\* no division by, or logarithm of, a constant
Named(t, ns) == TLCEval(IF NamesIn(t) = {} THEN Bin("+", t, Leaf(R(ns))) ELSE t)
RECURSIVE AnyE(_, _)
AnyE(ns, d) == LET o == R({"exact", "exact", "/", "/", "+", "-", "*", "neg", "abs", "logexp", "explog", "log", "exp"}) IN
  IF d = 0 \/ o = "exact" THEN Exact(ns, d)
  ELSE IF o = "/" THEN Bin(o, AnyE(ns, d - 1), Named(TLCEval(Exact(ns, R({0, 1}))), ns))
  ELSE IF o \in {"neg", "abs"} THEN Un(o, AnyE(ns, d - 1))
  ELSE IF o \in {"logexp", "log", "exp"} THEN Un(o, Named(TLCEval(Exact(ns, d - 1)), ns))
  ELSE IF o = "explog" THEN Un(o, Bin("+", Un("abs", Named(TLCEval(Exact(ns, d - 1)), ns)), Num(R({0, 1}), 1)))
  ELSE Bin(o, AnyE(ns, d - 1), AnyE(ns, d - 1))
RECURSIVE Picks(_, _)
Picks(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Picks(S \ {x}, n - 1)
RandVar(full, n, name) == LET own == LET c == R(1..5) IN IF c <= 2 THEN full ELSE IF c = 3 THEN SelectSeq(full, LAMBDA d : R(1..3) > 1) ELSE Picks(Rng(full), IF c = 4 THEN Len(full) ELSE R(1..3)) dims == IF own = <<>> THEN full ELSE own IN
  [name |-> name, dims |-> dims, type |-> R({"f8", "f8", "f4", "i4", "i2"}), seed |-> R(0..99999), masked |-> R({0, 0, 1, 2, 3})]
GenCase(dummy, s) ==
  LET full == Picks(DimNames, R({1, 2, 2, 3})) nv == R(1..MaxVars) names == Picks(Names, nv)
      bad == R(1..8) = 1
      ns == Rng(names) \cup IF bad THEN {R(Names)} ELSE {}
  IN [sizes |-> [d \in DimNames |-> R(1..MaxSize)], vars |-> TLCEval([n \in 1..nv |-> RandVar(full, n, names[n])]),
      exprs |-> TLCEval([n \in 1..R(1..MaxExprs) |-> [out |-> R({"out", "res", "x_y", "A"}) \o R({"", "1", "_b"}), tree |-> AnyE(ns, R(0..MaxDepth)), space |-> R({0, 0, 1, 2}), form |-> R({"string", "dict"})]]),
      how |-> R({"ops", "ops", "function"})]
GenInit == tree = 0 /\ toks = <<>> /\ at = 0 /\ vals = 0 /\ stack = 0 /\ case = <<>> /\ i = 0 /\ done = FALSE
GenNext == IF at = 0 THEN case' = GenCase(0, at) /\ at' = 1 /\ UNCHANGED <<tree, toks, vals, stack, i, done>>
           ELSE ~done /\ done' = TRUE /\ UNCHANGED <<tree, toks, at, vals, stack, case, i>>
Emit == IF done THEN PrintT(<<"CASE", ToJson([case EXCEPT !.exprs = [n \in 1..Len(@) |-> @[n] @@ [toks |-> Text(@[n].tree)]]])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging: r.sizes, r.vars ([name, dims, cells]), r.exprs ([out, tree]), r.out ([name, dims, cells]), r.after (the inputs afterwards), r.refused
RECURSIVE Place(_, _, _)
Place(shape, pos, n) == IF n = 0 THEN 0 ELSE Place(shape, pos, n - 1) * shape[n] + pos[n]
RECURSIVE Where(_, _)
Where(shape, k) == IF shape = <<>> THEN <<>> ELSE LET w == ProdSeq(Tail(shape)) IN <<k \div w>> \o Where(Tail(shape), k % w)
VarOf(r, n) == r.vars[CHOOSE j \in 1..Len(r.vars) : r.vars[j].name = n]
Wanted(r, e) == LET ns == NamesIn(e.tree) IN
  ns # {} /\ ns \subseteq {v.name : v \in Rng(r.vars)} /\ \E w \in ns : \A n \in ns : Rng(VarOf(r, n).dims) \subseteq Rng(VarOf(r, w).dims)
\* the first variable of the field with the most dimensions among those named
Widest(r, e) == LET c == {j \in 1..Len(r.vars) : r.vars[j].name \in NamesIn(e.tree)} IN r.vars[CHOOSE j \in c : \A m \in c : Len(r.vars[m].dims) < Len(r.vars[j].dims) \/ (Len(r.vars[m].dims) = Len(r.vars[j].dims) /\ j <= m)]
Agrees(got, want) == IF want = Masked THEN got = <<>> ELSE IF want = Unknown THEN TRUE ELSE IF want = Some THEN got # <<>>
                     ELSE IF Abs(want[1]) > 200 * want[2] \/ want[2] > 50 THEN got # <<>> ELSE got = want
ExprFail(r, e, o) ==
  LET w == Widest(r, e) sh == [n \in 1..Len(w.dims) |-> r.sizes[w.dims[n]]]
      CellAt(n, pos) == LET v == VarOf(r, n) IN v.cells[Place([j \in 1..Len(v.dims) |-> r.sizes[v.dims[j]]], [j \in 1..Len(v.dims) |-> pos[CHOOSE q \in 1..Len(w.dims) : w.dims[q] = v.dims[j]]], Len(v.dims)) + 1]
  IN IF o.dims # w.dims THEN {<<"dims", e.out, o.dims>>}
     ELSE IF Len(o.cells) # ProdSeq(sh) THEN {<<"shape", e.out, Len(o.cells)>>}
     ELSE LET wrong == {k \in 1..Len(o.cells) : LET pos == Where(sh, k - 1) IN ~Agrees(o.cells[k], Value(e.tree, [n \in NamesIn(e.tree) |-> CellAt(n, pos)]))} IN
          IF wrong = {} THEN {} ELSE LET k == CHOOSE k \in wrong : \A m \in wrong : k <= m IN {<<"value", e.out, k, o.cells[k], Value(e.tree, [n \in NamesIn(e.tree) |-> CellAt(n, Where(sh, k - 1))])>>}
Fail(r) ==
  LET fine == (\A n \in 1..Len(r.exprs) : Wanted(r, r.exprs[n])) /\ Cardinality({r.exprs[n].out : n \in 1..Len(r.exprs)}) = Len(r.exprs) IN
  IF ~fine THEN (IF r.refused = "" THEN {<<"not refused">>} ELSE {}) \cup Broken(<<<<<<"inputs changed">>, r.after = [n \in 1..Len(r.vars) |-> r.vars[n].cells]>>>>)
  ELSE IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE IF [n \in 1..Len(r.out) |-> r.out[n].name] # [n \in 1..Len(r.exprs) |-> r.exprs[n].out] THEN {<<"outputs", [n \in 1..Len(r.out) |-> r.out[n].name]>>}
  ELSE UNION {ExprFail(r, r.exprs[n], r.out[n]) : n \in 1..Len(r.exprs)} \cup Broken(<<<<<<"inputs changed">>, r.after = [n \in 1..Len(r.vars) |-> r.vars[n].cells]>>>>)
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ tree = 0 /\ toks = <<>> /\ at = 0 /\ vals = 0 /\ stack = 0 /\ case = <<>>
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<tree, toks, at, vals, stack, case, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
