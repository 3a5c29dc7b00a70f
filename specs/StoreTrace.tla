----------------------------- MODULE StoreTrace -----------------------------
(* Accepts a recorded history of a real Objective iff all outcomes, tensors,
   batch sizes, errors, metrics and linear systems are those Store prescribes.
   OUTPUT names the clauses the calling check is responsible for.             *)
EXTENDS Store, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, reg, val, live
vars == <<l, c, reg, val, live>>

Init == l = 1 /\ c = [vars |-> <<>>, cfs |-> <<>>] /\ reg = <<>> /\ val = <<>> /\ live = FALSE

Has(e, k) == k \in DOMAIN e
F(b, name) == IF b THEN {} ELSE {name}

\* clauses on the observation after the call
ObsFails(e, val1) ==
  F(e.val = val1, "values") \cup
  (IF Has(e, "bs") /\ Consistent(c, reg, val1) THEN F(e.bs = Batch(c, reg, val1), "batch_size") ELSE {})

\* after a rejected update every named variable holds its old or its new tensor
PartialOK(e, before, ins, mask) ==
  \A v \in DOMAIN before :
    \/ e.val[v] = before[v]
    \/ \E i \in DOMAIN ins : /\ ins[i].bad = 0 /\ ins[i].name = c.vars[v].name
                             /\ e.val[v] = Masked(before[v], ins[i].t, mask)

Judge(e) ==
  CASE e.op = "update" ->
        LET r == Update(c, reg, val, e.ins, e.mask) IN
        IF r[1] = "ok" THEN [bad |-> F(e.res = "ok", "outcome") \cup ObsFails(e, r[2]), val |-> r[2]]
        ELSE [bad |-> F(e.res = r[1], "outcome") \cup
                      F(PartialOK(e, val, e.ins, e.mask), "values"), val |-> e.val]
    [] e.op \in {"error", "metric"} ->
        LET r == Update(c, reg, val, e.ins, <<>>)
            out == IF e.op = "error" THEN ErrorVec(c, reg, r[2]) ELSE Metric2(c, reg, r[2])
            kind == IF e.op = "error" THEN "error" ELSE "metric"
        IN IF r[1] = "ok" THEN
             LET v1 == IF e.also = 1 THEN r[2] ELSE val IN
             [bad |-> F(e.res = "ok", "outcome") \cup
                      (IF e.res = "ok" THEN F(e.out = out, kind) ELSE {}) \cup
                      F(e.val = v1, "restored"), val |-> v1]
           ELSE [bad |-> F(e.res = r[1], "outcome") \cup
                         (IF e.also = 0 THEN F(e.val = val, "restored") ELSE {}), val |-> e.val]
    [] e.op = "retract" ->
        LET v1 == Retract(c, reg, val, e.ord, e.delta, e.mask, e.force = 1)
        IN [bad |-> F(e.res = "ok", "outcome") \cup F(e.val = v1, "retracted"), val |-> v1]
    [] e.op = "set" -> [bad |-> {}, val |-> e.val]   \* the driver wrote variables directly
    [] OTHER -> [bad |-> F(e.val = val, "values"), val |-> val]

Step(e) ==
  IF e.op = "reset" THEN
     c' = e.cat /\ reg' = e.reg /\ val' = e.val /\ live' = TRUE
  ELSE IF ~live THEN UNCHANGED <<c, reg, val, live>>
  ELSE LET reg1 == IF e.op = "add" THEN Append(reg, e.f)
                   ELSE IF e.op = "erase" THEN SelectSeq(reg, LAMBDA g : g # e.f) ELSE reg
           j == Judge(e)
       IN /\ c' = c /\ reg' = reg1 /\ val' = j.val
          /\ IF j.bad = {} THEN live' = TRUE
             ELSE /\ live' = FALSE
                  /\ PrintT(ToJson([line |-> l, clauses |-> SetToSeq(j.bad), want |-> j.val,
                       out |-> IF e.op = "error" /\ e.res = "ok"
                               THEN ErrorVec(c, reg, Update(c, reg, val, e.ins, <<>>)[2]) ELSE <<>>]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
