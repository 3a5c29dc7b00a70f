---------------------------- MODULE WeightsTrace ----------------------------
(* Judges recorded evaluations of weighted and robust cost functions: one event
   per batch element, with everything the implementation returned for it.        *)
EXTENDS Weights, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, name) == IF b THEN {} ELSE {name}
Has(e, k) == k \in DOMAIN e

Judge(e) ==
  IF e.res # "ok" THEN {"outcome"}
  ELSE IF e.op = "gp" THEN
       F(e.hh = GPEE(e.c), "weighted_error") \cup F(e.ee = GPEE(e.c), "linearized_error") \cup
       F(e.ej = GPEJ(e.c), "gradient") \cup F(e.jj = GPJJ(e.c), "jacobians")
  ELSE F(e.h2 = H2(e.c), "weighted_error") \cup
       F(e.ee = EE(e.c), "linearized_error") \cup
       F(e.ej = EJ(e.c), "gradient") \cup
       F(e.jj = JJ(e.c), "jacobians") \cup
       (IF Has(e, "gr") THEN F(e.gr = GR(e.c), "autograd") ELSE {}) \cup
       (IF Has(e, "zero") THEN F(e.zero = Zero(e.c), "is_zero") ELSE {}) \cup
       (IF Has(e, "we") THEN F(e.we = We(e.c) /\ e.wj = WJ(e.c), "weighting") ELSE {})
Init == l = 1
Step(e) == LET bad == Judge(e) IN
           IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(bad)]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
