--------------------------------- MODULE Units --------------------------------
(* C05.  Quantities and the units they are written in.  An object is a variable (with or without bounds) holding numbers and   *)
(* a label.  A conversion maps numbers by the linear relation of the two units and replaces the label, in one step; it is      *)
(* refused between units of different kinds and without a label, leaving the object alone.  Slices, copies, reads and files    *)
(* move numbers and label together.  The quantity an object denotes never changes.                                             *)
EXTENDS Judge

CONSTANTS Nums, MaxObj, MaxSteps, MaxSize, UnitNames

VARIABLES objs, steps, case, i, done

----------------------------------------------------------------------------
\* a unit: kind, and the quantity of a number v is (sn/sd) * v + on/od of the base unit of its kind
Unit(u) ==
  CASE u \in {"K", "kelvin"} -> [k |-> "temperature", s |-> <<1, 1>>, o |-> <<0, 1>>]
    [] u \in {"celsius", "degC"} -> [k |-> "temperature", s |-> <<1, 1>>, o |-> <<5463, 20>>]
    [] u = "degF" -> [k |-> "temperature", s |-> <<5, 9>>, o |-> <<45967, 180>>]
    [] u \in {"m", "meter"} -> [k |-> "length", s |-> <<1, 1>>, o |-> <<0, 1>>]
    [] u = "km" -> [k |-> "length", s |-> <<1000, 1>>, o |-> <<0, 1>>]
    [] u = "Pa" -> [k |-> "pressure", s |-> <<1, 1>>, o |-> <<0, 1>>]
    [] u \in {"hPa", "millibar"} -> [k |-> "pressure", s |-> <<100, 1>>, o |-> <<0, 1>>]
    [] u = "m s-1" -> [k |-> "speed", s |-> <<1, 1>>, o |-> <<0, 1>>]
    [] u = "km h-1" -> [k |-> "speed", s |-> <<5, 18>>, o |-> <<0, 1>>]
    [] OTHER -> [k |-> "none", s |-> <<1, 1>>, o |-> <<0, 1>>]
Kind(u) == Unit(u).k

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
Mul(a, b) == LET g == Gcd(Abs(a[1]), b[2]) h == Gcd(Abs(b[1]), a[2]) IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE Q((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Sub(a, b) == Add(a, <<-b[1], b[2]>>)
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Masked == <<>>
Quantity(v, u) == IF v = Masked THEN v ELSE Add(Mul(Unit(u).s, v), Unit(u).o)
\* the number of units w that denotes what v denotes in units u
Conv(v, u, w) == IF v = Masked \/ u = w THEN v ELSE Mul(Sub(Quantity(v, u), Unit(w).o), Inv(Unit(w).s))

\* an object: its numbers, its label, the numbers of its bounds (pairs in sequence; empty without bounds) and whether it is real or not
Obj(c, u, b) == [cells |-> c, unit |-> u, bcells |-> b]
ConvObj(ob, u, w) == Obj([k \in DOMAIN ob.cells |-> Conv(ob.cells[k], u, w)], w, [k \in DOMAIN ob.bcells |-> Conv(ob.bcells[k], u, w)])
Allowed(u, w) == u # "" /\ Kind(u) = Kind(w) /\ Kind(w) # "none"
\* the source units are the label unless others are given
From(ob, st) == IF st.frm = "" THEN ob.unit ELSE st.frm
Refused(ob, st) == st.op \in {"conform", "operate"} /\ ~Allowed(From(ob, st), st.to)
Part(s, lo, hi) == [k \in 1..(hi - lo) |-> s[lo + k]]
Step(os, st) ==
  LET ob == os[st.obj] IN
  IF Refused(ob, st) THEN os
  ELSE CASE st.op = "conform" -> [os EXCEPT ![st.obj] = ConvObj(ob, From(ob, st), st.to)]
         [] st.op = "operate" -> Append(os, ConvObj(ob, ob.unit, st.to))
         [] st.op = "slice" -> Append(os, Obj(Part(ob.cells, st.lo, st.hi), ob.unit, IF ob.bcells = <<>> THEN <<>> ELSE Part(ob.bcells, 2 * st.lo, 2 * st.hi)))
         [] st.op \in {"copy", "deepcopy"} -> Append(os, ob)
         \* bounds are found again in a file for coordinates (hi = 1)
         [] st.op = "write" -> Append(os, IF st.hi = 1 THEN ob ELSE Obj(ob.cells, ob.unit, <<>>))
         [] OTHER -> os
RECURSIVE Play(_, _)
Play(os, ss) == IF ss = <<>> THEN os ELSE Play(TLCEval(Step(os, Head(ss))), Tail(ss))

----------------------------------------------------------------------------
\* Model: every history; what an object denotes follows from where it comes from, whatever the labels in between
S(op, ob, to, frm, lo, hi) == [op |-> op, obj |-> ob, to |-> to, frm |-> frm, lo |-> lo, hi |-> hi]
Denotes(ob) == [cells |-> [k \in DOMAIN ob.cells |-> Quantity(ob.cells[k], ob.unit)], bcells |-> [k \in DOMAIN ob.bcells |-> Quantity(ob.bcells[k], ob.unit)]]
Init == /\ \E u \in UnitNames, n \in Nums : objs = <<Obj(<<<<n, 1>>, Masked>>, u, <<<<n, 1>>, <<n + 1, 1>>, <<n + 1, 1>>, <<n + 2, 1>>>>)>>
        /\ steps = <<>> /\ case = [x |-> 0] /\ i = 0 /\ done = FALSE
Choices == {S("conform", o, w, "", 0, 0) : o \in 1..Len(objs), w \in UnitNames \cup {"furlong"}} \cup
           (IF Len(objs) < MaxObj THEN {S(op, o, "", "", 0, 0) : op \in {"copy", "write"}, o \in 1..Len(objs)} \cup {S("operate", o, w, "", 0, 0) : o \in 1..Len(objs), w \in UnitNames} \cup
               {S("slice", o, "", "", 0, 1) : o \in {o \in 1..Len(objs) : Len(objs[o].cells) = 2}} ELSE {})
Next == /\ Len(steps) < MaxSteps
        /\ \E st \in Choices : /\ objs' = Step(objs, st) /\ steps' = Append(steps, st)
                               /\ case' = [x |-> 0]
        /\ UNCHANGED <<i, done>>
\* no history changes what there is: every object still denotes (the start of) what the first one was made of
First(os) == Denotes(os[1])
Conserved == \A o \in 1..Len(objs) : LET d == Denotes(objs[o]) f == First(objs) IN \A k \in DOMAIN d.cells : d.cells[k] = f.cells[k]
Together == [][\A o \in 1..Len(objs) : Denotes(objs'[o]) = Denotes(objs[o]) /\ (objs'[o].unit = objs[o].unit => objs'[o] = objs[o])]_<<objs, steps, case, i, done>>

----------------------------------------------------------------------------
\* Generation
R(s) == RandomElement(s)
Kinds == {"temperature", "length", "pressure", "speed"}
AllUnits(z) == {"K", "kelvin", "celsius", "degC", "degF", "m", "meter", "km", "Pa", "hPa", "millibar", "m s-1", "km h-1"}
OfKind(k) == {u \in AllUnits(0) : Kind(u) = k}
Start(k) == TLCEval(LET sc == R(1..12) = 1 n == IF sc THEN 1 ELSE R(1..MaxSize) src == IF sc THEN "memory" ELSE R({"memory", "memory", "field", "file", "file", "level", "vector"}) IN
  [src |-> src, kind |-> k, unit |-> IF src \in {"memory", "field", "file"} /\ R(1..12) = 1 THEN "" ELSE R(OfKind(k)), n |-> n,
   vals |-> [j \in 1..n |-> R(-9..40)], mask |-> [j \in 1..n |-> src \notin {"level", "vector"} /\ R(1..4) = 1], type |-> IF src \in {"memory", "field"} THEN R({"f8", "f4", "i4", "i2"}) ELSE R({"f8", "f4"}),
   bounds |-> src = "level" \/ (src \in {"memory", "field"} /\ ~sc /\ R({TRUE, FALSE})), scalar |-> sc, attrs |-> R({TRUE, FALSE}),
   \* units given when a file is opened: other than the file's, and units to convert to on reading
   over |-> IF src \in {"file", "vector"} /\ (src # "file" \/ R(1..3) = 1) THEN R(OfKind(k)) ELSE "",
   conf |-> IF src \in {"file", "vector"} /\ R(1..3) > 1 THEN (IF R(1..6) = 1 THEN R(AllUnits(0)) ELSE R(OfKind(k))) ELSE ""])
Ops == <<"conform", "conform", "conform", "slice", "copy", "deepcopy", "read", "write", "operate">>
GStep(c, os) == TLCEval(LET o == R(1..Len(os)) op == LET z == Ops[R(1..Len(Ops))] IN IF z = "operate" /\ c.src = "level" THEN "conform" ELSE IF z = "write" /\ c.type \in {"i4", "i2"} THEN "deepcopy" ELSE IF z = "slice" /\ c.scalar THEN "copy" ELSE z m == Len(os[o].cells) lo == R(0..(m - 1)) hi == IF op = "write" THEN (IF c.src = "level" THEN 1 ELSE 0) ELSE R((lo + 1)..m) IN
  S(op, o, IF op \in {"conform", "operate"} THEN (IF R(1..6) = 1 THEN R(AllUnits(0) \cup {"furlongs per wish"}) ELSE R(OfKind(c.kind))) ELSE "",
    IF op = "conform" /\ c.kind = "temperature" /\ R(1..5) = 1 THEN R(OfKind(c.kind)) ELSE "", lo, hi))
\* integers of a declared type (as those found in files are): one conversion
WholeStart(k) == TLCEval(LET n == R(1..MaxSize) src == R({"memory", "field", "file", "vector"}) u == R(OfKind(k)) IN
  [src |-> src, kind |-> k, unit |-> u, n |-> n, vals |-> [j \in 1..n |-> R(-9..40)], mask |-> [j \in 1..n |-> src # "vector" /\ R(1..4) = 1], type |-> IF k = "length" THEN "i4" ELSE R({"i4", "i2"}),
   bounds |-> FALSE, scalar |-> FALSE, attrs |-> FALSE, over |-> IF src = "vector" THEN u ELSE "", conf |-> IF src \in {"file", "vector"} /\ R({TRUE, FALSE}) THEN R(OfKind(k)) ELSE ""])
WholeNext == /\ i < 2
             /\ \E c \in {WholeStart(R(Kinds))} : case' = [c |-> c, steps |-> IF c.conf = "" THEN <<S("conform", 1, R(OfKind(c.kind)), "", 0, 1)>> ELSE <<>>]
             /\ i' = i + 1 /\ UNCHANGED <<objs, steps, done>>
\* the first object: as in memory, or as opened (none if the opening is refused)
First0(c) == LET u == IF c.over # "" THEN c.over ELSE IF c.src \in {"vector"} THEN "" ELSE c.unit
                 b == IF c.bounds THEN [k \in 1..(2 * c.n) |-> IF c.mask[(k + 1) \div 2] THEN Masked ELSE <<2 * c.vals[(k + 1) \div 2] + (IF k % 2 = 1 THEN -1 ELSE 1), 2>>] ELSE <<>>
                 o == Obj([k \in 1..c.n |-> IF c.mask[k] THEN Masked ELSE <<c.vals[k], 1>>], u, b) IN
             IF c.conf = "" THEN <<o>> ELSE IF Allowed(u, c.conf) THEN <<ConvObj(o, u, c.conf)>> ELSE <<>>
RECURSIVE GSteps(_, _, _)
GSteps(c, os, n) == IF n = 0 \/ os = <<>> THEN <<>> ELSE LET st == GStep(c, os) IN TLCEval(<<st>> \o GSteps(c, TLCEval(Step(os, st)), n - 1))
GenInit == case = <<>> /\ objs = <<>> /\ steps = <<>> /\ i = 0 /\ done = FALSE
GenNext == /\ i < 2
           /\ \E c \in {Start(R(Kinds))} : \E ss \in {TLCEval(GSteps(c, First0(c), R(0..MaxSteps)))} : case' = [c |-> c, steps |-> ss]
           /\ i' = i + 1 /\ UNCHANGED <<objs, steps, done>>
Emit == case = <<>> \/ PrintT(<<"CASE", ToJson(case)>>)

----------------------------------------------------------------------------
\* Conformance: a record holds the case, which steps were refused, and every object afterwards
JInit == i \in 1..Len(Trace) /\ done = FALSE /\ case = <<>> /\ objs = <<>> /\ steps = <<>>
\* numbers are recorded in thousandths
Near(v, q) == IF q = Masked \/ v = MISS THEN q = Masked /\ v = MISS ELSE LET whole == q[1] \div q[2] IN
              Abs(v - whole * 1000) <= 2000000 /\ Abs((v - whole * 1000) * q[2] - (q[1] - whole * q[2]) * 1000) <= 2 * q[2]
Cells(vs, qs) == Len(vs) = Len(qs) /\ \A k \in 1..Len(vs) : Near(vs[k], qs[k])
WholeNear(v, q) == IF q = Masked \/ v = MISS THEN q = Masked /\ v = MISS ELSE Abs(v - (q[1] \div q[2]) * 1000) <= 1000
Whole(vs, qs) == Len(vs) = Len(qs) /\ \A k \in 1..Len(vs) : WholeNear(vs[k], qs[k])
RECURSIVE Refusals(_, _)
Refusals(os, ss) == IF ss = <<>> THEN <<>> ELSE <<Refused(os[Head(ss).obj], Head(ss))>> \o Refusals(TLCEval(Step(os, Head(ss))), Tail(ss))
Fail(r) ==
  LET c == r.what os0 == First0(c) os == TLCEval(Play(os0, r.steps)) IN
  IF os0 = <<>> THEN Broken(<<<<"opening-refused", r.opened = "refused">>>>)
  ELSE Broken(<<
    <<"opened", r.opened = "ok">>,
    <<"refusals", r.refused = Refusals(os0, r.steps)>>,
    <<"objects", Len(r.objs) = Len(os)>>,
    <<"numbers", Len(r.objs) = Len(os) => \A k \in 1..Len(os) : Cells(r.objs[k].cells, os[k].cells)>>,
    \* not more than the fraction is lost
    <<"whole-numbers", Len(r.objs) = Len(os) => \A k \in 1..Len(os) : Whole(r.objs[k].cells, os[k].cells)>>,
    <<"label", Len(r.objs) = Len(os) => \A k \in 1..Len(os) : r.objs[k].unit = os[k].unit>>,
    <<"bounds", Len(r.objs) = Len(os) => \A k \in 1..Len(os) : Cells(r.objs[k].bcells, os[k].bcells)>>,
    <<"bounds-label", Len(r.objs) = Len(os) => \A k \in 1..Len(os) : os[k].bcells # <<>> => r.objs[k].bunit \in {os[k].unit, ""}>>,
    <<"same-units-change-nothing", \A k \in 1..Len(r.same) : r.same[k]>>>>)
JNext == ~done /\ done' = TRUE /\ UNCHANGED <<case, objs, steps, i>> /\ Report(i, Fail(Trace[i]))
=============================================================================
