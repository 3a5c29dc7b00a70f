----------------------------- MODULE GaussTrace -----------------------------
(* Recorded histories of Gaussians: vs are the element values of all variables made so
   far, gs the Gaussians over them (m: variable numbers, prec).  Every event carries the
   whole store as found after it; an event that leaves anything else than the
   specification says is reported with its clauses and the recorded store adopted.      *)
EXTENDS Gauss, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
F(b, name) == IF b THEN {} ELSE {name}
Ab(x) == IF x < 0 THEN -x ELSE x
Vals(s, k) == [i \in DOMAIN s.gs[k].m |-> s.vs[s.gs[k].m[i]]]
Of(s, k) == [mean |-> Vals(s, k), prec |-> s.gs[k].prec]
Ones(m) == Id(DofAll(m))
Put(vs, ids, els) == [i \in DOMAIN vs |-> IF \E k \in DOMAIN ids : ids[k] = i THEN els[CHOOSE k \in DOMAIN ids : ids[k] = i] ELSE vs[i]]
Ids(n, c) == [i \in 1..c |-> n + i]

Why(s, e) == \* the reason for which an operation is refused, "" if it is not
  CASE e.op = "update" -> Refusal(Of(s, e.k), e.mean, e.prec, e.odd)
    [] e.op = "local" -> IF LocalRefused(e.v, Of(s, e.k)) THEN "kind" ELSE ""
    [] e.op = "retract" -> IF Sym(e.L) THEN e.odd ELSE "symmetry"
    [] e.op = "new" -> IF e.prec # <<>> THEN Refusal([mean |-> [i \in DOMAIN e.m |-> s.vs[e.m[i]]], prec |-> <<>>], [i \in DOMAIN e.m |-> s.vs[e.m[i]]], e.prec, e.odd) ELSE ""
    [] OTHER -> ""
After(s, e) ==
  IF Why(s, e) # "" THEN s ELSE
  CASE e.op = "new" -> [s EXCEPT !.gs = Append(@, [m |-> e.m, prec |-> IF e.prec = <<>> THEN Ones([i \in DOMAIN e.m |-> s.vs[e.m[i]]]) ELSE e.prec])]
    [] e.op = "copy" -> [vs |-> s.vs \o Vals(s, e.k),
                         gs |-> Append(s.gs, [m |-> Ids(Len(s.vs), Len(s.gs[e.k].m)), prec |-> s.gs[e.k].prec])]
    [] e.op = "update" -> [vs |-> Put(s.vs, s.gs[e.k].m, e.mean), gs |-> [s.gs EXCEPT ![e.k].prec = e.prec]]
    [] e.op = "pokep" -> [s EXCEPT !.gs[e.k].prec = e.prec]
    [] e.op = "poke" -> [s EXCEPT !.vs[e.i] = e.el]
    [] e.op = "retract" -> LET r == TLCEval(RetractG(e.v, e.u, e.L)) IN
         [vs |-> s.vs \o r.mean, gs |-> Append(s.gs, [m |-> <<Len(s.vs) + 1>>, prec |-> r.prec])]
    [] OTHER -> s
Out(s, e) == IF e.op # "local" \/ Why(s, e) # "" THEN {}
  ELSE LET x == TLCEval(LocalG(e.v, Of(s, e.k))) IN
       F(e.out.mean = x.mean, "local_mean") \cup F(e.out.prec = x.prec, "local_precision") \cup F(e.out.eta = x.eta, "information_vector")
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Ab(a[i] - b[i]) <= t
(* samples: e.A integer precision (per unit temperature), e.t temperature, e.n samples;
   e.mu (means of the deviations) and e.C (their second moments) in thousandths.  A times
   C is t times the identity up to sampling noise, of variance t^2 (A_ii + 1) / n at most
   when A >= I.                                                                         *)
SampleBad(e) ==
  LET P == TLCEval(Mul(e.A, e.C)) K == DOMAIN e.A IN
  F(\A i \in K : e.mu[i] * e.mu[i] <= (36 * 1000 * e.t) \div (e.n \div 1000) + 9, "sample_mean") \cup
  F(\A i, j \in K : LET d == P[i][j] - (IF i = j THEN 1000 * e.t ELSE 0) IN
      Ab(d) < 20000 /\ d * d <= ((36 * 1000 * e.t * e.t) \div (e.n \div 1000)) * (e.A[i][i] + 1) + 400, "sample_covariance")
Judge(s, e) ==
  CASE e.op = "reset" -> {}
    [] e.op = "round" -> F(e.res = "ok", "outcome") \cup (IF e.res = "ok" THEN F(Near(e.a, e.b, e.tol), e.what) ELSE {})
    [] e.op = "samples" -> F(e.res = "ok", "outcome") \cup (IF e.res = "ok" THEN SampleBad(e) ELSE {})
    [] OTHER -> LET n == TLCEval(After(s, e)) IN
         F(e.res = (IF Why(s, e) = "" THEN "ok" ELSE "ValueError"), "outcome") \cup
         (IF e.res = "ok" THEN Out(s, e) ELSE {}) \cup
         F(e.vs = n.vs, "values") \cup F(e.gs = n.gs, "gaussians") \cup F(e.flags = <<>>, "bookkeeping")
Init == l = 1 /\ st = [vs |-> <<>>, gs |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ LET b == TLCEval(Judge(st, Trace[l])) IN
           IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
        /\ st' = IF Trace[l].op \in {"round", "samples"} THEN st ELSE [vs |-> Trace[l].vs, gs |-> Trace[l].gs]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
=============================================================================
