------------------------------ MODULE OptTrace ------------------------------
(* Validates recorded optimizer runs against Nls (bookkeeping) and Steps (rules).

   start : problem (cells), options, initial values
   iter  : one recorded iteration: x (fixed point), fl (cell coordinates), same
           (the element's variables did not change), e2 (twice the error)
   end   : how the call returned and the reported info
   solo  : an element optimised in a batch and alone                             *)
EXTENDS Nls, Steps, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, R       \* s: current run; R: the states that explain it so far
Has(e, k) == k \in DOMAIN e
F(b, name) == IF b THEN {} ELSE {name}
B == 1..s.B
Tol == s.tol

Idx(fl) == ((IF Len(fl) = 1 THEN fl[1] ELSE fl[1] + 3 * fl[2]) % s.K) + 1
Cell(i, fl) == s.cells[i][Idx(fl)]
Err2(c) == Dot(c.e, c.e)
StepQ(r) == IF r.forced THEN <<1, 1>> ELSE s.step
Scale(r, y) == [i \in DOMAIN y |-> (y[i] * StepQ(r)[1]) \div StepQ(r)[2]]
Mode2 == s.mode \in {"truncated", "implicit"}

(* ---- the step of element i with parameter q (<<>>: not tracked) *)
RawStep(r, i, q) ==
  LET c == Cell(i, r.fl[i]) IN
  IF s.opt = "gn" THEN GnStep(c.A, c.e, s.S)
  ELSE IF r.forced /\ ~Singular(c.A) THEN GnStep(c.A, c.e, s.S)
  ELSE IF s.opt = "lm" THEN (IF q[2] = 0 THEN <<>> ELSE LmStep(c.A, c.e, q, s.ell, s.S))
  ELSE DlStep(c.A, c.e, q, s.S)
(* possible values of twice the error at x + y *)
Fls(v) == {(v - Tol) \div s.S, (v + Tol) \div s.S}
TrialErr(r, i, y) ==
  LET t == [j \in DOMAIN y |-> r.x[i][j] + y[j]] IN
  IF \A j \in DOMAIN y : Ab(y[j]) <= 1 THEN {r.els[i].e} \cup
     (IF Len(y) = 1 THEN {Err2(Cell(i, << f >>)) : f \in Fls(t[1])}
      ELSE {Err2(Cell(i, << f, g >>)) : f \in Fls(t[1]), g \in Fls(t[2])})
  ELSE IF Len(y) = 1 THEN {Err2(Cell(i, << f >>)) : f \in Fls(t[1])}
  ELSE {Err2(Cell(i, << f, g >>)) : f \in Fls(t[1]), g \in Fls(t[2])}

Adaptive == (s.opt = "lm" /\ s.adaptive = 1) \/ s.opt = "dl"

(* possible outcomes of element i in one attempt: <<rejected, next parameter>> *)
Outs(q, yes, no, qr, qa) ==
  (IF yes THEN { <<TRUE, qr>> } ELSE {}) \cup (IF no THEN {<<FALSE, qa>>} ELSE {})
NoQ == <<0, 0>>
MulQ(q, f) == IF q[2] = 0 \/ q[1] > 13000000 \/ q[2] > 100000 THEN NoQ ELSE
              IF Ab(q[1]) * f[1] > 100000000 \/ q[2] * f[2] > 10000000 THEN NoQ ELSE Red(q[1] * f[1], q[2] * f[2])
DivQ(q, f) == MulQ(q, <<f[2], f[1]>>)
Cl(q) == IF q[2] = 0 THEN q ELSE
         LET lo == IF s.qmin[2] = 0 THEN q ELSE IF LessQ(q, s.qmin) THEN s.qmin ELSE q IN
         IF s.qmax[2] = 0 THEN lo ELSE IF LessQ(s.qmax, lo) THEN s.qmax ELSE lo
LmOuts(r, i, q) ==
  LET c == Cell(i, r.fl[i]) g == Grad(c.A, c.e)
      y == TLCEval(RawStep(r, i, q))
      up == Cl(MulQ(q, s.up)) dn == Cl(DivQ(q, s.down))
      any == Outs(q, TRUE, TRUE, up, dn)
  IN IF \A j \in DOMAIN g : g[j] = 0 THEN {<<FALSE, dn>>}
     ELSE IF q[2] = 0 \/ y = <<>> THEN any
     ELSE LET ys == TLCEval(Scale(r, y))
              den == TLCEval(LmPred(c.A, c.e, q, s.ell, ys, s.S))
              den1 == LmPred(c.A, c.e, q, s.ell, y, s.S)     \* the full step
              es == IF r.els[i].conv THEN {r.els[i].e} ELSE TrialErr(r, i, ys)
              u == SumS([j \in DOMAIN g |-> 3 * Ab(g[j])]) + 3
              V(e1, dn1) == IF r.els[i].e = e1 THEN "yes" ELSE Cmp((r.els[i].e - e1) * s.S, dn1, u, s.acc)
              C == {V(e1, den) : e1 \in es}
              \* with a step size other than 1 the prediction of the scaled step is
              \* between a half and the whole of the prediction of the full step
              D == IF StepQ(r) = <<1, 1>> THEN C
                   ELSE C \cup {V(e1, den1) : e1 \in es} \cup {V(e1, 2 * den) : e1 \in es}
          IN Outs(q, "yes" \in D \/ "?" \in D, "no" \in D \/ "?" \in D, up, dn)
DlOuts(r, i, q) ==
  LET c == Cell(i, r.fl[i]) g == Grad(c.A, c.e)
      y == TLCEval(RawStep(r, i, q))
      up == Cl(MulQ(q, s.up)) dn == Cl(MulQ(q, s.down))
      any == {<<b, p>> : b \in BOOLEAN, p \in {up, dn, Cl(q)}}
  IN IF \A j \in DOMAIN g : g[j] = 0 THEN {<<FALSE, Cl(q)>>}
     ELSE IF q[2] = 0 \/ y = <<>> THEN any
     ELSE LET ys == TLCEval(Scale(r, y))
              den == TLCEval(TrPred(c.A, c.e, ys, s.S))
              es == IF r.els[i].conv THEN {r.els[i].e} ELSE TrialErr(r, i, ys)
              u == SumS([j \in DOMAIN g |-> 16 * Ab(g[j])]) + 30
          IN IF den < 0 THEN any
             ELSE UNION { LET n == (r.els[i].e - e1) * s.S
                              ca == Cmp(n, den, u, s.acc)
                              cs == IF n = 0 THEN "yes" ELSE Cmp(n, den, u, s.shr)
                              ce == IF n = 0 THEN "yes" ELSE Cmp(n, den, u, s.exp)
                          IN {<<b, p>> : b \in (IF n = 0 THEN {s.acc[1] > 0}
                                                 ELSE IF ca = "?" THEN BOOLEAN ELSE {ca = "yes"}),
                                         p \in (IF cs \in {"yes", "?"} THEN {dn} ELSE {}) \cup
                                               (IF ce \in {"no", "?"} THEN {up} ELSE {}) \cup
                                               (IF cs \in {"no", "?"} /\ ce \in {"yes", "?"} THEN {Cl(q)} ELSE {})}
                        : e1 \in es }
OutsOf(r, i, q) == IF s.opt = "lm" THEN LmOuts(r, i, q) ELSE DlOuts(r, i, q)

(* did element i move to x + y (within the tolerance)? *)
Moved(r, i, y, e) == \A j \in DOMAIN y : Ab(e.x[i][j] - (r.x[i][j] + y[j])) <= Tol
MovedOK(r, i, q, e) == LET y == RawStep(r, i, q) IN y = <<>> \/ Moved(r, i, Scale(r, y), e)
Zero(r, i) == LET c == Cell(i, r.fl[i]) IN \A g \in {Grad(c.A, c.e)} : \A j \in DOMAIN g : g[j] = 0
Still(i, e) == e.same[i] = 1

(* All outcomes explaining the recorded iteration:
   <<next parameters, rejected elements, all rejected>>.  qs: parameters          *)
RECURSIVE Product(_, _)
Product(f, n) == IF n = 0 THEN {<<>>} ELSE {Append(p, o) : o \in f[n], p \in Product(f, n - 1)}
RECURSIVE Attempts(_, _, _, _)
Attempts(r, qs, k, e) ==
  LET f == TLCEval([i \in B |-> OutsOf(r, i, qs[i])])
      fits(i, o) == IF r.els[i].conv \/ o[1] THEN Still(i, e) ELSE MovedOK(r, i, qs[i], e)
      still == \A i \in B : Still(i, e) \/ k < 2
      allr == IF still THEN TLCEval(Product(TLCEval([i \in B |-> {o \in f[i] : o[1]}]), s.B)) ELSE {}
      some == {p \in Product(TLCEval([i \in B |-> {o \in f[i] : fits(i, o)}]), s.B) : \E i \in B : ~p[i][1]}
      Nq(p) == [i \in B |-> p[i][2]]
      retry == IF k < 2 THEN UNION {Attempts(r, n, k + 1, e) : n \in {Nq(p) : p \in allr}}
               ELSE {<<Nq(p), [i \in B |-> TRUE], TRUE>> : p \in allr}
  IN retry \cup {<<Nq(p), [i \in B |-> p[i][1]], FALSE>> : p \in some}

(* ---- bookkeeping *)
Budget(r) == IF ~Mode2 THEN s.K1 + s.K2 ELSE IF r.phase = 1 THEN s.K1 ELSE s.K2
Fails(r) == \E i \in B : Singular(Cell(i, r.fl[i]).A) /\ ~(s.opt = "lm" /\ s.q0[1] > 0)
Failed(r) == r.els[1].st = "FAIL"
Over(r) == (r.it > 0 /\ AllConv(r.els)) \/ r.it >= Budget(r) \/ Failed(r)
(* moves to the second loop once the first is over *)
Adv(x) == IF Mode2 /\ x.phase = 1 /\ ((x.it > 0 /\ AllConv(x.els)) \/ x.it >= s.K1 \/ x.els[1].st = "FAIL")
          THEN [x EXCEPT !.first = Stop(x.els), !.n1 = x.it, !.phase = 2, !.it = 0,
                         !.forced = s.mode = "implicit",
                         !.els = [i \in B |-> [NewEl(x.els[i].e) EXCEPT !.bc = Len(x.xs)]]]
          ELSE x

Iter(r, e, rej, allrej) == [i \in B |-> IterEl(s.p, r.els[i], r.it, Len(r.xs) + 1, e.e2[i], i \in rej, allrej)]
NextR(r, e, rej, allrej, qs) ==
  [r EXCEPT !.els = Iter(r, e, rej, allrej), !.it = @ + 1, !.x = e.x, !.fl = e.fl, !.qs = qs,
            !.xs = Append(@, e.x), !.errs = Append(@, e.e2)]

(* r is the current hypothesis; several may be alive *)
StepIter(r, e) ==      \* <<violated clauses, next states>>
  LET bad0 == F(~Over(r) /\ ~(Fails(r) /\ ~r.forced), "stop") \cup
              F(\A i \in B : e.e2[i] = Err2(Cell(i, e.fl[i])), "err_history")
      frozen == F(\A i \in B : r.els[i].conv => Still(i, e), "frozen")
  IN IF bad0 # {} THEN <<bad0, {}>>
     ELSE IF r.forced \/ ~Adaptive THEN
        LET qs == [i \in B |-> r.qs[i]]
            mv == F(\A i \in B : r.els[i].conv \/ MovedOK(r, i, r.qs[i], e), "step")
        IN <<frozen \cup (IF s.rules = 1 THEN mv ELSE {}), {NextR(r, e, {}, FALSE, qs)}>>
     ELSE IF s.rules = 0 THEN
        \* any decision of the optimizer: an active element that did not move was rejected
        LET rej == {i \in B : Still(i, e) /\ ~Zero(r, i)}
            act == {i \in B : ~r.els[i].conv}
        IN <<frozen, {NextR(r, e, rej, FALSE, r.qs)} \cup
              (IF \A i \in act : Still(i, e) THEN {NextR(r, e, rej, TRUE, r.qs)} ELSE {})>>
     ELSE LET A == TLCEval(Attempts(r, r.qs, 0, e)) IN
          IF A = {} THEN <<frozen \cup {"decision"}, {}>>
          ELSE <<frozen, {NextR(r, e, {i \in B : a[2][i]}, a[3], a[1]) : a \in A}>>

EndOf(r, e) ==
  LET fail == ~Over(r) /\ Fails(r)
      els1 == IF fail THEN FailAll(r.els) ELSE r.els
      rep == IF Mode2 /\ r.phase = 2 THEN Merge(r.first, Stop(els1), r.n1) ELSE Stop(els1)
      grad == s.nograd = 0 /\ (~Mode2 \/ r.phase = 2)
  IN IF fail /\ grad THEN F(e.res = "raised", "failure_reported")
     ELSE IF Mode2 /\ r.phase = 1 THEN {"stop"}
     ELSE F(Over(r) \/ fail, "stop") \cup
     (IF e.res # "ok" THEN {"outcome"} ELSE
       F(e.status = [i \in B |-> rep[i].st], "status") \cup
       F(\A i \in B : rep[i].st = "FAIL" \/ e.citer[i] = CI(rep[i]), "converged_iter") \cup
       F(e.last = r.errs[Len(r.errs)], "last_err") \cup
       F(e.final = 1, "final_iterate") \cup
       (IF Has(e, "best") THEN
          F(e.best = [i \in B |-> rep[i].be], "best_err") \cup
          F(e.biter = [i \in B |-> rep[i].bi], "best_iter") \cup
          F(e.bestx = [i \in B |-> r.xs[rep[i].bc][i]], "best_solution")
        ELSE {}) \cup
       (IF Has(e, "calls") THEN
          \* the callback runs after every iteration that is not the converging one
          F(Len(e.calls) <= Len(r.errs) - 1 /\ Len(e.calls) >= Len(r.errs) - (IF Mode2 THEN 3 ELSE 2)
            /\ (Mode2 \/ \A k \in DOMAIN e.calls : e.calls[k] = k - 1), "callback")
        ELSE {}))

(* ---- element alone vs in a batch *)
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) <= 1 THEN q
            ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE << q[1] >> \o Dedup(Tail(q))
Pre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Solo(e) ==
  LET a == Dedup(e.batch) b == Dedup(e.alone) IN
  IF e.adaptive = 1 THEN F(Pre(a, b) \/ Pre(b, a), "trajectory")
  ELSE F(a = b, "trajectory") \cup F(e.sb = e.sa, "status") \cup F(e.cb = e.ca, "converged_iter") \cup
       F(e.bb = e.ba, "best")

Q0(e) == [i \in 1..e.B |-> e.q0]
StartR(e) == [els |-> [i \in 1..e.B |-> NewEl(e.e2[i])], it |-> 0, x |-> e.x, fl |-> e.fl, qs |-> Q0(e),
              xs |-> << e.x >>, errs |-> << e.e2 >>, phase |-> 1, n1 |-> 0, first |-> <<>>,
              forced |-> FALSE]
Init == l = 1 /\ s = [dead |-> TRUE] /\ R = {}
Bad(b) == PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
Least(S) == CHOOSE b \in S : \A c \in S : Cardinality(b) <= Cardinality(c)
(* a failure of the linear solver in the first loop of two ends that loop *)
AdvFail(x) == LET y == Adv(x) IN
  IF Mode2 /\ y.phase = 1 /\ ~Over(y) /\ Fails(y) THEN Adv([y EXCEPT !.els = FailAll(@)]) ELSE y
Step(e) ==
  CASE e.op = "start" -> s' = [dead |-> FALSE] @@ e /\ R' = {StartR(e)}
    [] e.op = "solo" -> /\ LET b == Solo(e) IN IF b = {} THEN TRUE ELSE Bad(b)
                        /\ UNCHANGED <<s, R>>
    [] OTHER ->
       IF s.dead THEN UNCHANGED <<s, R>>
       ELSE IF e.op = "iter" THEN
         LET O == TLCEval({StepIter(Adv(x), e) : x \in R})
             good == TLCEval(UNION {o[2] : o \in {o1 \in O : o1[1] = {}}})
         IN /\ R' = good
            /\ IF Cardinality(good) > 12 THEN      \* too many explanations to follow
                  s' = [s EXCEPT !.dead = TRUE] /\ PrintT(ToJson([undecided |-> l]))
               ELSE IF good # {} THEN s' = s
               ELSE s' = [s EXCEPT !.dead = TRUE] /\ Bad(Least({o[1] : o \in O}))
       ELSE IF Mode2 /\ e.res = "raised" /\ s.nograd = 0
               /\ \E i \in B : \E k \in 1..s.K : Singular(s.cells[i][k].A)
            THEN UNCHANGED <<s, R>>      \* the iterates before the failure are not observable
       ELSE LET O == {EndOf(AdvFail(x), e) : x \in R} IN
            /\ UNCHANGED <<s, R>>
            /\ IF {} \in O THEN TRUE ELSE Bad(Least(O))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_<<l, s, R>>
=============================================================================
