------------------------------- MODULE Batch -------------------------------
(* A batch is the product of its elements: every observable operation on a batch
   of B elements, projected on element i, is the operation on the batch made of
   element i only.

     rows : values computed for the whole batch and for every element alone
            (fixed point; t = tolerance), one row per element
     run  : outcome of optimising the batch and every element alone
     fail : the whole batch raised / every element alone raised                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, name) == IF b THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t + Abs(y) \div 200000
NearRow(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : Near(r[i], q[i], t)

(* the batch as the product of its elements *)
Product(alone) == [i \in DOMAIN alone |-> alone[i]]

RowsOK(e) == /\ DOMAIN e.batch = DOMAIN e.alone
             /\ \A i \in DOMAIN e.alone : NearRow(e.batch[i], Product(e.alone)[i], e.t)

(* raising is a property of the batch: it happens iff some element raises *)
FailOK(e) == (e.batch = 1) <=> (\E i \in DOMAIN e.alone : e.alone[i] = 1)

Clauses(e) ==
  CASE e.op = "rows" -> F(RowsOK(e), e.what)
    [] e.op = "fail" -> F(FailOK(e), e.what)
    [] e.op = "disc" -> F(e.batch = Product(e.alone), e.what)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == Clauses(Trace[l]) IN
             IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
