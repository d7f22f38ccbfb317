------------------------------- MODULE Stats -------------------------------
(* C01.  Statistics of groups of steps: each uses exactly the unmasked values at the steps of its group, for every     *)
(* level, realization, place and further dimension on its own.                                                        *)
EXTENDS Groups, Sample

CONSTANTS Vals, MaxSize

\* the data: a variable is [name, dims, shape, val], val flattened in the order of its dimensions, MISS where masked
VARIABLES vars, calcs, acc

Size(s) == ProdSeq(s)
Stride(s, k) == ProdSeq(SubSeq(s, k + 1, Len(s)))
\* the tuple of 0-based indices of element p (from 1)
Unflat(p, s) == [k \in 1..Len(s) |-> ((p - 1) \div Stride(s, k)) % s[k]]
Flat(x, s) == 1 + SumSeq([k \in 1..Len(s) |-> x[k] * Stride(s, k)])
AxisOf(v, d) == CHOOSE k \in 1..Len(v.dims) : v.dims[k] = d
\* the values of group mem at the place of element p of an output of shape s
Sample(v, gs, p) ==
  LET a == AxisOf(v, "time") s == [v.shape EXCEPT ![a] = Len(gs)] x == Unflat(p, s) m == SortSet(gs[x[a] + 1].mem)
  IN Unmasked([n \in 1..Len(m) |-> v.val[Flat([x EXCEPT ![a] = m[n] - 1], v.shape)]])
\* the names of what comes out: one variable for each calculation and each source variable, its sample size after it
OutNames(vs, cs, ss) ==
  FlattenSeq([c \in 1..Len(cs) |-> FlattenSeq([w \in 1..Len(vs) |->
     LET nm == IF Len(vs) > 1 THEN cs[c].name \o "_" \o vs[w].name ELSE cs[c].name IN IF ss THEN <<nm, "n_" \o nm>> ELSE <<nm>>])])

----------------------------------------------------------------------------
\* what a single pass over the steps keeps of every group: count, sum, sum of squares, largest and smallest
NoAcc == [n |-> 0, s |-> 0, q |-> 0, hi |-> -999, lo |-> 999]
Take(x, v) == IF v = MISS THEN x ELSE [n |-> x.n + 1, s |-> x.s + v, q |-> x.q + v * v, hi |-> Max2(x.hi, v), lo |-> Min2(x.lo, v)]
SInit == /\ \E c \in Cals : \E r \in Refs : \E n \in 1..MaxT : \E len \in {24, 240, 720} : \E g \in {g \in Groupings : g.kind \in {"all", "parts"}} :
              /\ fld = [cal |-> c, ref |-> r, tb |-> FALSE, time |-> Fixed(len, len, n, 24 * 20)] /\ grp = g /\ groups = GroupsOf(fld, g)
              /\ \E d \in [1..n -> Vals] : vars = <<[name |-> "d", dims |-> <<"time">>, shape |-> <<n>>, val |-> d]>>
         /\ seen = 0 /\ i = 0 /\ done = FALSE /\ calcs = <<>>
         /\ acc = [k \in 1..Len(groups) |-> NoAcc]
SNext == /\ seen < Len(fld.time) /\ seen' = seen + 1
         /\ acc' = [k \in 1..Len(acc) |-> IF seen + 1 \in groups[k].mem THEN Take(acc[k], vars[1].val[seen + 1]) ELSE acc[k]]
         /\ UNCHANGED <<fld, grp, groups, i, done, vars, calcs>>
End == seen = Len(fld.time)
OnePass == End => \A k \in 1..Len(groups) : LET b == Sample(vars[1], groups, k) IN
   /\ acc[k].n = Len(b)
   /\ Len(b) > 0 => /\ Same(Stat([func |-> "mean"], b), <<acc[k].s, acc[k].n>>) /\ Stat([func |-> "max"], b)[1] = acc[k].hi /\ Stat([func |-> "min"], b)[1] = acc[k].lo
                    /\ Same(Stat([func |-> "std"], b), <<acc[k].n * acc[k].q - acc[k].s * acc[k].s, acc[k].n * acc[k].n>>)
                    /\ acc[k].lo <= acc[k].hi
                    /\ Same(Stat([func |-> "median"], b), Stat([func |-> "freq_perc", par |-> 50], b))
\* nothing is lost or counted twice: group counts and sums add up to those of the series
Additive == End => /\ SumSeq([k \in 1..Len(acc) |-> acc[k].n]) = Len(Unmasked(vars[1].val))
                   /\ SumSeq([k \in 1..Len(acc) |-> acc[k].s]) = SumSeq(Unmasked(vars[1].val))

\* behaviours
Dims == <<"realization", "time", "level", "y", "x", "extra">>
Funcs == {"mean", "sum", "max", "min", "median", "std", "freq_perc"}
RandSubset(p) == SelectSeq(Dims, LAMBDA d : d = "time" \/ RandomElement(1..10) <= p)
RandPerm(s) == LET k == TLCEval([n \in 1..Len(s) |-> RandomElement(1..1000) * 10 + n]) o == SetToSortSeq(1..Len(s), LAMBDA a, b : k[a] < k[b]) IN [n \in 1..Len(s) |-> s[o[n]]]
DimSeqs(q) == {TLCEval(IF RandomElement(1..3) = 1 THEN RandSubset(6) ELSE RandPerm(RandSubset(5)))}
Datas(n) == LET m == RandomElement({0, 1, 2, 8}) lo == RandomElement(1..n) hi == RandomElement(1..n) z == RandomElement(1..4) IN
            {TLCEval([k \in 1..n |-> IF RandomElement(1..10) <= m \/ (z = 1 /\ lo <= k /\ k <= hi) THEN MISS ELSE RandomElement(Vals)])}
VarOf(nm, nt, sz, ds) == LET sh == TLCEval([k \in 1..Len(ds) |-> IF ds[k] = "time" THEN nt ELSE sz[ds[k]]]) IN
                         {[name |-> nm, dims |-> ds, shape |-> sh, val |-> d] : d \in Datas(Size(sh))}
Sizes(q) == {TLCEval([d \in {Dims[k] : k \in 1..6} \ {"time"} |-> RandomElement(1..MaxSize)])}
Calc(k) == [func |-> RandomElement(Funcs), name |-> <<"q", "w", "e">>[k], par |-> RandomElement({0, 10, 25, 50, 90, 100, 33})]
SGenInit == GenInit /\ vars = <<>> /\ calcs = <<>> /\ acc = <<>>
SGenNext ==
  CASE seen = 0 -> /\ \E s \in Starts(TRUE) : \E kd \in {RandomElement({"all", "parts", "parts", "seasons", "unique"})} : \E g \in {RandomElement({g \in Groupings : g.kind = kd})} :
                        fld' = (IF RandomElement(1..4) = 1 THEN [s EXCEPT !.time = Reverse(@)] ELSE s) /\ grp' = g
                   /\ seen' = 1 /\ UNCHANGED <<groups, i, done, vars, calcs, acc>>
    [] seen = 1 -> /\ \E two \in {RandomElement(1..3)} : \E sz \in Sizes(seen) : \E ds \in DimSeqs(seen) : \E v \in VarOf("d", Len(fld.time), sz, ds) :
                        IF two = 1 THEN \E es \in DimSeqs(seen) : \E w \in VarOf("a", Len(fld.time), sz, es) : vars' = <<v, w>> ELSE vars' = <<v>>
                   /\ \E n \in {RandomElement(1..3)} : calcs' = TLCEval([k \in 1..n |-> Calc(k)])
                   /\ seen' = 2 /\ UNCHANGED <<fld, grp, groups, i, done, acc>>
    [] OTHER -> ~done /\ done' = TRUE /\ UNCHANGED <<fld, grp, seen, groups, i, vars, calcs, acc>>
SEmit == IF done THEN PrintT(<<"CASE", ToJson([fld |-> fld, grp |-> grp, vars |-> vars, calcs |-> calcs])>>) ELSE TRUE

----------------------------------------------------------------------------
\* judging: out[name] = [dims, shape, val (sequence of <<num, den>> or <<>>), units]
ValuesOK(o, v, c, gs) ==
  /\ o.shape = [v.shape EXCEPT ![AxisOf(v, "time")] = Len(gs)]
  /\ Len(o.val) = Size(o.shape)
  /\ \A p \in 1..Len(o.val) : LET b == Sample(v, gs, p) IN IF b = <<>> THEN o.val[p] = <<>> ELSE Same(o.val[p], Stat(c, b))
SizesOK(o, v, gs) ==
  /\ o.shape = [v.shape EXCEPT ![AxisOf(v, "time")] = Len(gs)]
  /\ \A p \in 1..Len(o.val) : LET b == Sample(v, gs, p) IN IF b = <<>> THEN o.val[p] \in {<<>>, <<0, 1>>} ELSE Same(o.val[p], <<Len(b), 1>>)
SFail(r) ==
  LET f == r.fld g == Asked(r.grp) gs == GroupsOf(f, g) vs == r.vars cs == r.calcs names == OutNames(vs, cs, r.ss) st == IF r.ss THEN 2 ELSE 1 IN
  IF gs = <<>> THEN (IF r.refused # "" THEN {} ELSE {"groups-of-nothing"})
  ELSE IF r.refused # "" THEN {<<"refused", r.refused>>}
  ELSE IF r.names # names THEN {<<"names", names, r.names>>}
  ELSE Broken(<<
    <<"dims", \A n \in 1..Len(names) : r.out[n].dims = vs[(((n - 1) \div st) % Len(vs)) + 1].dims>>,
    <<"values", \A n \in 1..Len(names) : (r.ss /\ n % 2 = 0) \/ ValuesOK(r.out[n], vs[(((n - 1) \div st) % Len(vs)) + 1], cs[(((n - 1) \div st) \div Len(vs)) + 1], gs)>>,
    <<"sizes", r.ss => \A n \in 1..Len(names) : (n % 2 = 1) \/ SizesOK(r.out[n], vs[(((n - 1) \div st) % Len(vs)) + 1], gs)>>,
    <<"units", \A n \in 1..Len(names) : (r.ss /\ n % 2 = 0) \/ r.out[n].units = vs[(((n - 1) \div st) % Len(vs)) + 1].name \o "u">>,
    <<"time", Len(r.bounds) = Len(gs) /\ \A k \in 1..Len(gs) : r.bounds[k] = BoundsOf(f, gs[k].mem)>>,
    <<"coordinates", r.coords>>,
    <<"source", r.source = [w \in 1..Len(vs) |-> vs[w].val]>>,
    <<"source-time", r.srctime = [k \in 1..Len(f.time) |-> f.time[k].v]>> >>)
SJInit == JInit /\ vars = <<>> /\ calcs = <<>> /\ acc = <<>>
SJNext == ~done /\ done' = TRUE /\ UNCHANGED <<fld, grp, seen, groups, i, vars, calcs, acc>> /\ Report(i, SFail(Trace[i]))
=============================================================================
