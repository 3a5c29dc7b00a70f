------------------------------- MODULE Store -------------------------------
(* The numeric state of an Objective: tensors bound to variables, batch sizes,
   weighted errors/jacobians of the registered cost functions, temporary and
   masked updates, and retraction.  Vectorization is a flag of the state that,
   by design, no observable depends on.

   A catalog C fixes the objects:
     C.vars : sequence of [name, ty, d]   ty = "vec" (d = dof) or "rot" (SO2, in
              quarter turns: the value is a number 0..3)
     C.cfs  : sequence of [name, ty, o, a, w]   o/a = optimisation/auxiliary ids,
              w = [ty |-> "scale" | "diag", v |-> id]
   A tensor is a sequence of batch rows, a row is a sequence of integers.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rng(s) == {s[i] : i \in DOMAIN s}
RowOf(t, b) == IF Len(t) = 1 THEN t[1] ELSE t[b]
Max2(x, y) == IF x > y THEN x ELSE y
MaxLen(S) == CHOOSE m \in S : \A n \in S : n <= m

Mod4(k) == k % 4
Cos4(k) == <<1, 0, -1, 0>>[Mod4(k) + 1]
Sin4(k) == <<0, 1, 0, -1>>[Mod4(k) + 1]

Dof(C, v) == IF C.vars[v].ty = "rot" THEN 1 ELSE C.vars[v].d

AppendAll(ord, vs) ==
  LET RECURSIVE F(_, _)
      F(o, s) == IF s = <<>> THEN o
                 ELSE F(IF Head(s) \in Rng(o) THEN o ELSE Append(o, Head(s)), Tail(s))
  IN F(ord, vs)

OptVars(C, reg) ==
  LET RECURSIVE F(_, _)
      F(o, s) == IF s = <<>> THEN o ELSE F(AppendAll(o, C.cfs[Head(s)].o), Tail(s))
  IN F(<<>>, reg)
Known(C, reg) == UNION {Rng(C.cfs[f].o) \cup Rng(C.cfs[f].a) \cup {C.cfs[f].w.v} : f \in Rng(reg)}

(* ------------------------------ batch sizes ------------------------------ *)
Sizes(C, reg, val) == {Len(val[v]) : v \in Known(C, reg)}
Consistent(C, reg, val) ==
  LET S == Sizes(C, reg, val) IN S # {} /\ (Cardinality(S) = 1 \/ (Cardinality(S) = 2 /\ 1 \in S))
Batch(C, reg, val) == MaxLen(Sizes(C, reg, val))

(* ------------------------- errors and jacobians -------------------------- *)
\* rows x, y, a are the values of the optimisation / auxiliary variables
RawErr(C, f, R) ==
  LET c == C.cfs[f]
      o(i) == R[c.o[i]]
      a(i) == R[c.a[i]]
  IN CASE c.ty = "diff" -> [i \in DOMAIN o(1) |-> o(1)[i] - a(1)[i]]
       [] c.ty = "btw"  -> [i \in DOMAIN o(1) |-> o(2)[i] - o(1)[i] - a(1)[i]]
       [] c.ty = "quad" -> [i \in DOMAIN o(1) |-> a(1)[i] * o(1)[i] * o(1)[i]]
       [] c.ty \in {"prod", "ad"} -> [i \in DOMAIN o(1) |-> o(1)[i] * o(2)[i] + a(1)[i]]
       [] c.ty = "rot"  -> <<Cos4(o(1)[1]) - a(1)[1], Sin4(o(1)[1]) - a(1)[2]>>

\* jacobian with respect to the k-th optimisation variable: sequence of rows
RawJac(C, f, k, R) ==
  LET c == C.cfs[f]
      o(i) == R[c.o[i]]
      a(i) == R[c.a[i]]
      diag(g(_)) == [i \in DOMAIN o(1) |-> [j \in DOMAIN o(1) |-> IF i = j THEN g(i) ELSE 0]]
  IN CASE c.ty = "diff" -> diag(LAMBDA i : 1)
       [] c.ty = "btw"  -> diag(LAMBDA i : IF k = 1 THEN -1 ELSE 1)
       [] c.ty = "quad" -> diag(LAMBDA i : 2 * a(1)[i] * o(1)[i])
       [] c.ty \in {"prod", "ad"} -> diag(LAMBDA i : o(3 - k)[i])
       [] c.ty = "rot"  -> <<<<-Sin4(o(1)[1])>>, <<Cos4(o(1)[1])>>>>

\* weight factor of error row i
WFac(C, f, R, i) ==
  LET w == C.cfs[f].w IN IF w.ty = "scale" THEN R[w.v][1] ELSE R[w.v][i]

CfErr(C, f, R) == LET e == RawErr(C, f, R) IN [i \in DOMAIN e |-> WFac(C, f, R, i) * e[i]]

RowsAt(val, b) == [v \in DOMAIN val |-> RowOf(val[v], b)]

RECURSIVE ConcatErr(_, _, _)
ConcatErr(C, reg, R) ==
  IF reg = <<>> THEN <<>> ELSE CfErr(C, Head(reg), R) \o ConcatErr(C, Tail(reg), R)

\* the error vector: one row per batch element, in registration order
ErrorVec(C, reg, val) ==
  [b \in 1..Batch(C, reg, val) |-> ConcatErr(C, reg, RowsAt(val, b))]

RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN 0 ELSE Head(s) * Head(s) + SumSq(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* twice the objective's metric: half the squared norm, or a user-given sum
Metric2(C, reg, val) ==
  [b \in 1..Batch(C, reg, val) |->
     LET e == ConcatErr(C, reg, RowsAt(val, b)) IN
     IF "metric" \in DOMAIN C /\ C.metric = "sum" THEN 2 * Sum(e) ELSE SumSq(e)]

\* weighted jacobian rows of cost function f over the columns of ordering ord:
\* blocks of a variable used twice add up
JacRows(C, f, ord, R) ==
  LET c == C.cfs[f]
      n == Len(RawErr(C, f, R))
      Blk(i, v) == [j \in 1..Dof(C, v) |->
          LET ks == {k \in DOMAIN c.o : c.o[k] = v}
              RECURSIVE S(_)
              S(K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN
                         WFac(C, f, R, i) * RawJac(C, f, k, R)[i][j] + S(K \ {k})
          IN S(ks)]
      RECURSIVE Cols(_, _)
      Cols(i, o) == IF o = <<>> THEN <<>> ELSE Blk(i, Head(o)) \o Cols(i, Tail(o))
  IN [i \in 1..n |-> Cols(i, ord)]

RECURSIVE Stack(_, _, _, _)
Stack(C, reg, ord, R) ==
  IF reg = <<>> THEN <<>> ELSE JacRows(C, Head(reg), ord, R) \o Stack(C, Tail(reg), ord, R)

LinA(C, reg, val, ord) ==
  [b \in 1..Batch(C, reg, val) |-> Stack(C, reg, ord, RowsAt(val, b))]
LinB(C, reg, val) ==
  [b \in 1..Batch(C, reg, val) |->
     LET e == ConcatErr(C, reg, RowsAt(val, b)) IN [i \in DOMAIN e |-> -e[i]]]

(* -------------------------------- updates -------------------------------- *)
\* mask = <<>> means no mask; mask[b] = 1 keeps the old row b
Masked(old, new, mask) ==
  IF \A b \in DOMAIN mask : mask[b] = 0 THEN new
  ELSE LET n == MaxLen({Len(old), Len(new), Len(mask)}) IN
       [b \in 1..n |-> IF (IF Len(mask) = 1 THEN mask[1] ELSE mask[b]) = 1
                       THEN RowOf(old, b) ELSE RowOf(new, b)]

\* inputs: sequence of [name, bad, t]; bad = wrong rank, shape or dtype
IdOf(C, reg, n) == {v \in Known(C, reg) : C.vars[v].name = n}
Apply(C, reg, val, ins, mask) ==
  [v \in DOMAIN val |->
     LET S == {i \in DOMAIN ins : v \in IdOf(C, reg, ins[i].name)} IN
     IF S = {} THEN val[v] ELSE Masked(val[v], ins[CHOOSE i \in S : TRUE].t, mask)]

\* outcome of update: <<tag, val>>; on rejection the value is unspecified
Update(C, reg, val, ins, mask) ==
  IF \E i \in DOMAIN ins : ins[i].bad = 1 THEN <<"ValueError", val>>
  ELSE LET v1 == Apply(C, reg, val, ins, mask) IN
       IF Consistent(C, reg, v1) THEN <<"ok", v1>> ELSE <<"ValueError", v1>>

(* ------------------------------- retraction ------------------------------ *)
RetractRow(C, v, row, d) ==
  IF C.vars[v].ty = "rot" THEN <<Mod4(row[1] + d[1])>>
  ELSE [i \in DOMAIN row |-> row[i] + d[i]]

RECURSIVE ColOf(_, _, _)
ColOf(C, ord, v) == IF Head(ord) = v THEN 0 ELSE Dof(C, Head(ord)) + ColOf(C, Tail(ord), v)

Retract(C, reg, val, ord, delta, mask, force) ==
  [v \in DOMAIN val |->
     IF v \notin Rng(ord) THEN val[v]
     ELSE LET c == ColOf(C, ord, v)
              n == Max2(Len(val[v]), Len(delta))
              new == [b \in 1..n |->
                        RetractRow(C, v, RowOf(val[v], b),
                                   SubSeq(RowOf(delta, b), c + 1, c + Dof(C, v)))]
          IN Masked(val[v], new, IF force THEN <<>> ELSE mask)]

(* --------------------------- design level claims ------------------------- *)
\* an update touches only what it names, and only unmasked rows of it
UpdateFrame(C, reg, val, val1, ins, mask) ==
  \A v \in DOMAIN val :
    /\ (~\E i \in DOMAIN ins : ins[i].name = C.vars[v].name) => val1[v] = val[v]
    /\ \A b \in DOMAIN val1[v] :
         (mask # <<>> /\ Len(mask) = Len(val1[v]) /\ mask[b] = 1) => val1[v][b] = RowOf(val[v], b)
=============================================================================
