------------------------------ MODULE AutoDiff ------------------------------
(* Judges recorded evaluations of autodiff cost functions (P19).                  *)
EXTENDS AD, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, name) == IF b THEN {} ELSE {name}
NearV(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : Abs(r[i] - q[i]) <= t
NearM(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : NearV(r[i], q[i], t)
EvalBad(e) ==
  LET x == TLCEval(e.x) IN
  F(e.err = Error(x, e.fn), "error") \cup
  F(e.jerr = Error(x, e.fn), "error_from_jacobians") \cup
  F(\A o \in DOMAIN e.opt : e.j[o] = Jac(x, e.fn, e.opt[o]), "jacobian") \cup
  F(\A k \in DOMAIN e.g : e.g[k] = JacGrad(x, e.fn, e.opt, e.W, e.gv[k]), "jacobian_gradient")
Judge(e) ==
  CASE e.op = "eval" -> EvalBad(e)
    [] e.op = "same" -> F(NearM(e.a, e.b, e.tol), e.what)
    [] e.op = "outcome" -> F(e.res = e.exp, e.what)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == Judge(Trace[l]) IN
             IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
