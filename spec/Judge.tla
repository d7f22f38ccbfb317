------------------------------- MODULE Judge -------------------------------
(* Common vocabulary of the conformance specifications: the recorded executions of the real code are read from the  *)
(* file named by the environment variable TRACE, one record per line, and a record is rejected with the names of    *)
(* the clauses it breaks.                                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

MISS == -999999          \* a masked or missing element in a record

\* The clauses of r that do not hold: cl is a sequence of <<name, BOOLEAN>>.
Broken(cl) == {cl[k][1] : k \in {k \in 1..Len(cl) : ~cl[k][2]}}
Report(n, f) == IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", n, f>>)

Rng(s) == {s[k] : k \in 1..Len(s)}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
=============================================================================
