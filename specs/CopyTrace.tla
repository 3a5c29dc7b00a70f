----------------------------- MODULE CopyTrace -----------------------------
(* Accepts a recorded history over several objectives (see Copy) iff every copy
   has the structure of its source, every result is that objective's own, and no
   objective is affected by operations on another.                             *)
EXTENDS Copy, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, objs, live
vars == <<l, c, objs, live>>
Init == l = 1 /\ c = [vars |-> <<>>, cfs |-> <<>>] /\ objs = <<>> /\ live = FALSE
F(b, name) == IF b THEN {} ELSE {name}

\* e.vals[k][v] = rows of variable v in objective k (<<>> when it has none)
ValsOK(e, os) ==
  /\ Len(e.vals) = Len(os)
  /\ \A k \in DOMAIN os : \A v \in DOMAIN c.vars :
        e.vals[k][v] = IF v \in Known(c, os[k].reg) THEN os[k].val[v] ELSE <<>>

Apply1(e) ==
  CASE e.op = "copy"    -> CopyOf(objs, e.k)
    [] e.op = "update"  -> SetVal(objs, e.k, Update(c, objs[e.k].reg, objs[e.k].val, e.ins, <<>>)[2])
    [] e.op = "retract" -> SetVal(objs, e.k, Retract(c, objs[e.k].reg, objs[e.k].val, e.ord, e.delta, <<>>, FALSE))
    [] e.op = "erase"   -> SetReg(objs, e.k, SelectSeq(objs[e.k].reg, LAMBDA g : g # e.f))
    [] OTHER -> objs

Judge(e) ==
  LET o1 == Apply1(e) IN
  F(e.res = "ok", "outcome") \cup
  (IF e.res # "ok" THEN {} ELSE
     F(ValsOK(e, o1), IF e.op = "copy" THEN "copied_values" ELSE "isolation") \cup
     (IF e.op = "copy" THEN
        F(e.struct = Struct(c, objs[e.k].reg), "structure") \cup
        F(e.uniq = 1, "sharing") \cup F(e.disj = 1, "disjoint") ELSE {}) \cup
     (IF e.op = "error" THEN F(e.out = ErrorVec(c, objs[e.k].reg, objs[e.k].val), "error") ELSE {}) \cup
     (IF e.op = "metric" THEN F(e.out = Metric2(c, objs[e.k].reg, objs[e.k].val), "metric") ELSE {}) \cup
     (IF e.op = "lin" THEN
        F(e.A = LinA(c, objs[e.k].reg, objs[e.k].val, e.ord) /\ e.b = LinB(c, objs[e.k].reg, objs[e.k].val),
          "jacobians") ELSE {}))

Step(e) ==
  IF e.op = "reset" THEN
     c' = e.cat /\ objs' = <<[reg |-> e.reg, val |-> e.val]>> /\ live' = TRUE
  ELSE IF ~live THEN UNCHANGED <<c, objs, live>>
  ELSE LET bad == Judge(e) IN
       /\ c' = c /\ objs' = Apply1(e)
       /\ IF bad = {} THEN live' = TRUE
          ELSE /\ live' = FALSE
               /\ PrintT(ToJson([line |-> l, clauses |-> SetToSeq(bad)]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
