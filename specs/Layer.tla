------------------------------- MODULE Layer -------------------------------
(* Judges recorded forward and backward passes of the layer.

   lin  : one forward/backward of a problem whose Gauss-Newton model is exact at
          the solution.  Per batch element: integer A, c (residual A x - c), row
          weights w, loss coefficients v (loss = v . x), returned x and the values
          the optimizer itself returns (fixed point, scale 1000).  Per parameter
          entry: observed gradient and the list of places <<element, kind, row, col>>
          where the parameter enters (kind "c", "A" or "w").
          With H = A' W^2 A,  x = H^-1 A' W^2 c  and  u = H^-1 v:
            d loss / d c_r    =  w_r^2 (a_r . u)
            d loss / d A_rj   = -w_r^2 (u_j r_r + (a_r . u) x_j)
            d loss / d w_r    = -2 w_r (a_r . u) r_r
   rows : layer's values against the optimizer's own (fixed point)
   pose : x1 = t o z for transforms with integer matrices; tangent components of the
          gradient of <V, x1> with respect to t and z                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, name) == IF b THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])

Minor(M, i, j) == LET n == Len(M) IN
  [r \in 1..n - 1 |-> [c \in 1..n - 1 |-> M[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE Sum([j \in DOMAIN M |-> IF M[1][j] = 0 THEN 0
                 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
ReplCol(M, j, v) == [i \in DOMAIN M |-> [c \in DOMAIN M |-> IF c = j THEN v[i] ELSE M[i][c]]]
Cramer(M, v) == [j \in DOMAIN M |-> Det(ReplCol(M, j, v))]

(* fixed-point value of n/d without overflowing *)
Fix(n, d) == (n \div d) * 1000 + ((n % d) * 1000) \div d
FixS(n, d) == IF d < 0 THEN Fix(-n, -d) ELSE Fix(n, d)

N(q) == Len(q.A[1])
H(q) == [i \in 1..N(q) |-> [j \in 1..N(q) |->
           Sum([r \in DOMAIN q.A |-> q.w[r] * q.w[r] * q.A[r][i] * q.A[r][j]])]]
Rhs(q) == [i \in 1..N(q) |-> Sum([r \in DOMAIN q.A |-> q.w[r] * q.w[r] * q.A[r][i] * q.c[r]])]
Model(q) == LET M == H(q) D == Det(M) X == Cramer(M, Rhs(q)) U == Cramer(M, q.v) IN
  [D |-> D, X |-> X, U |-> U,
   AU |-> [r \in DOMAIN q.A |-> Dot(q.A[r], U)],
   R |-> [r \in DOMAIN q.A |-> Dot(q.A[r], X) - q.c[r] * D]]

Contribution(q, m, kind, r, j) ==
  LET w2 == q.w[r] * q.w[r] IN
  CASE kind = "c" -> FixS(w2 * m.AU[r], m.D)
    [] kind = "A" -> FixS(-w2 * (m.U[j] * m.R[r] + m.AU[r] * m.X[j]), m.D * m.D)
    [] kind = "w" -> FixS(-2 * q.w[r] * m.AU[r] * m.R[r], m.D * m.D)
Expected(e, M, p) == Sum([k \in DOMAIN p.at |->
                       Contribution(e.elems[p.at[k][1]], M[p.at[k][1]], p.kind, p.at[k][2], p.at[k][3])])
GradOK(e, M, p) == LET x == Expected(e, M, p) IN
                     Abs(p.obs - x) <= e.gtol + Len(p.at) + (Abs(x) \div 1000) * e.grel

LinBad(e) ==
  LET M == TLCEval([i \in DOMAIN e.elems |-> TLCEval(Model(e.elems[i]))]) IN
  F(\A i \in DOMAIN e.elems : \A j \in 1..N(e.elems[i]) :
       Abs(e.elems[i].x[j] - FixS(M[i].X[j], M[i].D)) <= e.xtol, "solution") \cup
  F(\A i \in DOMAIN e.elems : \A j \in 1..N(e.elems[i]) :
       Abs(e.elems[i].x[j] - e.elems[i].direct[j]) <= 1, "same_as_optimizer") \cup
  UNION {F(GradOK(e, M, e.params[k]), "gradient_" \o e.params[k].kind) : k \in DOMAIN e.params}

(* homogeneous integer matrices *)
MatMul(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |->
                   Sum([k \in DOMAIN B |-> A[i][k] * B[k][j]])]]
Inner(A, B) == Sum([i \in DOMAIN A |-> Dot(A[i], B[i])])
E(n, i, j, s) == [a \in 1..n |-> [b \in 1..n |-> IF <<a, b>> = <<i, j>> THEN s ELSE 0]]
AddM(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> A[i][j] + B[i][j]]]
Skew(n, i, j) == AddM(E(n, j, i, 1), E(n, i, j, -1))   \* rotation from axis i to axis j
(* right-tangent basis in the library's order: translations first, then rotations *)
Basis(ty) ==
  CASE ty = "SO2" -> <<Skew(2, 1, 2)>>
    [] ty = "SE2" -> <<E(3, 1, 3, 1), E(3, 2, 3, 1), Skew(3, 1, 2)>>
    [] ty = "SO3" -> <<Skew(3, 2, 3), Skew(3, 3, 1), Skew(3, 1, 2)>>
    [] ty = "SE3" -> <<E(4, 1, 4, 1), E(4, 2, 4, 1), E(4, 3, 4, 1), Skew(4, 2, 3), Skew(4, 3, 1), Skew(4, 1, 2)>>
PoseBad(e) ==
  LET X == MatMul(e.tm, e.zm) B == Basis(e.ty) IN
  F(\A i \in DOMAIN X : \A j \in DOMAIN X : Abs(e.x[i][j] - 1000 * X[i][j]) <= 2, "pose_solution") \cup
  F(\A k \in DOMAIN B : Abs(e.gt[k] - 1000 * Inner(e.V, MatMul(MatMul(e.tm, B[k]), e.zm))) <= e.gtol, "pose_gradient_first") \cup
  F(\A k \in DOMAIN B : Abs(e.gz[k] - 1000 * Inner(e.V, MatMul(X, B[k]))) <= e.gtol, "pose_gradient_second")

Near(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : Abs(r[i] - q[i]) <= t
Judge(e) ==
  CASE e.op = "lin" -> LinBad(e)
    [] e.op = "rows" -> F(Near(e.layer, e.direct, e.t), e.what)
    [] e.op = "pose" -> PoseBad(e)
    [] e.op = "outcome" -> F(e.res = e.exp, "outcome")

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == Judge(Trace[l]) IN
             IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
