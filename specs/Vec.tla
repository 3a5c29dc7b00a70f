-------------------------------- MODULE Vec --------------------------------
(* Judges recorded evaluations of real objectives made of shipped cost
   functions, seen as the composition of their parts.

   For every evaluation the recorder logs, for each registered cost function
   taken on its own at the current variable values (never through an objective),
   its weighted error, its weighted jacobians and its linearized error, and
   everything the objective / linearization returned.  All numbers are fixed
   point; Near allows for the rounding of the projection only.

   What is checked is Store's semantics lifted to opaque parts:
     - the error vector is the concatenation of the parts in registration order;
     - the linear system places each part's blocks at its rows and its variables'
       columns in the given ordering, and nothing anywhere else;
     - a retraction moves each unmasked row to the part's own retraction;
     - copies, vectorization, gradient mode and history are irrelevant.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Has(e, k) == k \in DOMAIN e
F(b, name) == IF b THEN {} ELSE {name}

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= 3 + Abs(y) \div 1000000
NearRow(r, s) == DOMAIN r = DOMAIN s /\ \A i \in DOMAIN r : Near(r[i], s[i])
NearMat(m, n) == DOMAIN m = DOMAIN n /\ \A i \in DOMAIN m : NearRow(m[i], n[i])
RowOf(t, b) == IF Len(t) = 1 THEN t[1] ELSE t[b]

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

Neg(r) == [i \in DOMAIN r |-> -r[i]]

(* parts : sequence of [e, le, o, J]: weighted error rows (per batch), linearized
   error rows, optimisation variable ids, J[k][b] = block rows of variable o[k]  *)
ErrRows(parts, B) == [b \in 1..B |-> Cat([k \in DOMAIN parts |-> RowOf(parts[k].e, b)])]
RhsRows(parts, B) == [b \in 1..B |-> Neg(Cat([k \in DOMAIN parts |-> RowOf(parts[k].le, b)]))]

Zeros(n) == [i \in 1..n |-> 0]
PartRows(p, b, ord, dofs) ==
  LET n == Len(RowOf(p.le, b)) IN
  [i \in 1..n |->
     Cat([c \in DOMAIN ord |->
            IF ord[c] \in {p.o[k] : k \in DOMAIN p.o}
            THEN LET k == CHOOSE x \in DOMAIN p.o : p.o[x] = ord[c] IN RowOf(p.J[k], b)[i]
            ELSE Zeros(dofs[c])])]
MatRows(parts, B, ord, dofs) ==
  [b \in 1..B |-> Cat([k \in DOMAIN parts |-> PartRows(parts[k], b, ord, dofs)])]

(* vars : sequence of [old, new]: rows before and after each variable's own retract *)
RetractOK(v, after, mask, force) ==
  /\ Len(after) >= Len(v.new)
  /\ \A b \in DOMAIN after :
       NearRow(after[b],
               IF mask # <<>> /\ ~force /\ (IF Len(mask) = 1 THEN mask[1] ELSE mask[b]) = 1
               THEN RowOf(v.old, b) ELSE RowOf(v.new, b))

Kept(mask) == SelectSeq([i \in DOMAIN mask |-> i], LAMBDA i : mask[i] = 1)

Judge(e) ==
  CASE e.op = "eval" ->
         F(e.res = "ok", "outcome") \cup
         (IF e.res # "ok" THEN {} ELSE
            (IF Has(e, "err") THEN F(NearMat(e.err, ErrRows(e.parts, e.B)), "error") ELSE {}) \cup
            (IF Has(e, "b") THEN F(NearMat(e.b, RhsRows(e.parts, e.B)), "rhs") ELSE {}) \cup
            (IF Has(e, "A") THEN F(\A b \in 1..e.B : NearMat(e.A[b], MatRows(e.parts, e.B, e.ord, e.dofs)[b]),
                                   "matrix") ELSE {}) \cup
            (IF Has(e, "vals") THEN F(e.vals = e.vals0, "values") ELSE {}) \cup
            (IF Has(e, "grad") THEN F(NearMat(e.grad, e.grad0), "gradient") ELSE {}))
    [] e.op = "retract" ->
         F(e.res = "ok", "outcome") \cup
         (IF e.res # "ok" THEN {} ELSE
            F(\A k \in DOMAIN e.vars : RetractOK(e.vars[k], e.after[k], e.mask, e.force = 1), "retracted") \cup
            F(NearMat(e.rest, e.rest0), "others"))
    [] e.op = "masked" ->   \* temporarily masked variables
         F(e.res = "ok", "outcome") \cup
         F(Len(e.inside) = Len(e.before) /\ \A k \in DOMAIN e.before :
             e.inside[k] = [i \in DOMAIN Kept(e.mask) |-> e.before[k][Kept(e.mask)[i]]], "masked") \cup
         F(e.after = e.before, "restored")
    [] e.op = "flag" -> F(e.ok = 1, e.clause)
    [] OTHER -> {}

Init == l = 1
Step(e) == LET bad == Judge(e) IN
           IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(bad)]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
