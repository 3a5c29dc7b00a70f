-------------------------------- MODULE Nls --------------------------------
(* Loop bookkeeping of the nonlinear optimizers, per batch element.

   Errors are twice the objective value, so that they are integers.  p holds
   the tolerances as fractions: p.abs, p.rel (numerator, denominator).
   A loop is a sequence of iterations; an iteration gives every element a new
   error (environment) and a flag saying that its step was rejected.           *)
EXTENDS Integers, Sequences, FiniteSets

AbsV(x) == IF x < 0 THEN -x ELSE x

(* the documented tolerances: error, absolute change, relative change *)
Within(p, new, old) ==
  \/ AbsV(new) * p.abs[2] < 2 * p.abs[1]
  \/ AbsV(old - new) * p.abs[2] < 2 * p.abs[1]
  \/ old # 0 /\ AbsV(old - new) * p.rel[2] < p.rel[1] * AbsV(old)

(* one batch element: e error, conv converged in this loop, st status,
   ci iterations until convergence, be/bi/bc best error, its iteration and column *)
NewEl(err) == [e |-> err, conv |-> FALSE, st |-> "START", ci |-> 0,
               be |-> err, bi |-> 0, bc |-> 1]

IterEl(p, s, it, col, new, rej, allrej) ==
  LET c == Within(p, new, s.e) /\ (allrej \/ s.conv \/ ~rej) IN
  [e |-> new, conv |-> c, st |-> IF c THEN "CONVERGED" ELSE s.st,
   ci |-> s.ci + (IF s.conv THEN 0 ELSE 1),
   be |-> IF new < s.be THEN new ELSE s.be,
   bi |-> IF new < s.be THEN it ELSE s.bi,
   bc |-> IF new < s.be THEN col ELSE s.bc]

AllConv(els) == \A i \in DOMAIN els : els[i].conv
Stop(els) == [i \in DOMAIN els |-> IF els[i].st = "START" THEN [els[i] EXCEPT !.st = "MAX_ITERATIONS"] ELSE els[i]]
FailAll(els) == [i \in DOMAIN els |-> [els[i] EXCEPT !.st = "FAIL"]]

(* result of a loop without gradients followed by a loop with gradients *)
MergeEl(a, b, n1) ==
  LET late == b.be < a.be IN
  [e |-> b.e, conv |-> b.conv,
   st |-> IF a.st = "MAX_ITERATIONS" THEN b.st ELSE a.st,
   ci |-> IF a.st # "MAX_ITERATIONS" THEN a.ci ELSE a.ci + b.ci,
   be |-> IF late THEN b.be ELSE a.be,
   bi |-> IF late THEN n1 + b.bi ELSE a.bi,
   bc |-> IF late THEN b.bc ELSE a.bc]
Merge(A, B, n1) == [i \in DOMAIN A |-> MergeEl(A[i], B[i], n1)]
(* converged_iter as reported *)
CI(s) == IF s.st = "MAX_ITERATIONS" THEN -1 ELSE s.ci
=============================================================================
