------------------------------- MODULE Lie -------------------------------
(* Judges recorded group operations.  Inputs are exact (quaternions, integer points,
   integer matrices); observed values are fixed point with scale 1e4.             *)
EXTENDS LieAlg, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, name) == IF b THEN {} ELSE {name}
FixM(X) == [i \in DOMAIN X.m |-> [j \in DOMAIN X.m[i] |-> Fix(X.m[i][j], X.d)]]
(* a * b / S without overflow *)
Prod(a, b) == (a \div S) * b + ((a % S) * b) \div S
NearV(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : Abs(r[i] - q[i]) <= t
NearM(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : NearV(r[i], q[i], t)
Top(ty, M) == SubSeq(M, 1, Dim(ty))
PMul(A, B) == LET C == TLCEval(Trans(B)) IN
  TLCEval([i \in DOMAIN A |-> [j \in DOMAIN C |-> Sum([k \in DOMAIN C[j] |-> Prod(A[i][k], C[j][k])])]])
Col(J, k) == [i \in DOMAIN J |-> J[i][k]]

X(e) == El(e.ty, e.q, e.t)
Y(e) == El(e.ty, e.r, e.u)
Expect(e) ==   \* value and jacobians of the algebraic operations
  LET x == TLCEval(X(e)) ty == e.ty I == [m |-> IdM(Dof(ty)), d |-> 1] IN
  CASE e.op = "compose" -> LET y == TLCEval(Y(e)) IN
         [out |-> Top(ty, FixM(Mul(x, y))), j |-> << Conj(ty, Inv(ty, y), y), I >>]
    [] e.op = "between" -> LET y == TLCEval(Y(e)) b == TLCEval(Between(ty, x, y)) IN
         [out |-> Top(ty, FixM(b)), j |-> << Neg(Conj(ty, Between(ty, y, x), b)), I >>]
    [] e.op = "inverse" -> [out |-> Top(ty, FixM(Inv(ty, x))), j |-> << Neg(Ad(ty, x)) >>]
    [] e.op = "matrix" -> [out |-> FixM(x), j |-> <<>>]
    [] e.op = "adjoint" -> [out |-> FixM(Ad(ty, x)), j |-> <<>>]
    [] e.op = "act" -> LET a == Act(ty, x, e.p) IN
         [out |-> << [i \in DOMAIN a.v |-> Fix(a.v[i], a.d)] >>,
          j |-> << ActJacG(ty, x, e.p), RotBlock(ty, x) >>]
    [] e.op = "unact" -> LET xi == TLCEval(Inv(ty, x)) a == Act(ty, xi, e.p) IN
         [out |-> << [i \in DOMAIN a.v |-> Fix(a.v[i], a.d)] >>,
          j |-> << UnactJacG(ty, x, e.p), RotBlock(ty, xi) >>]
    [] e.op = "actrot" -> [out |-> Top(ty, FixM([m |-> MatMul(RotBlock(ty, x).m, e.M), d |-> x.d])), j |-> <<>>]
AlgBad(e) ==
  LET x == TLCEval(Expect(e)) IN
  F(NearM(e.out, x.out, e.tol), e.op) \cup
  UNION {F(NearM(e.j[k], FixM(x.j[k]), e.tol * 2), e.op \o "_jacobian_" \o ToString(k)) : k \in DOMAIN e.j}

(* two-dimensional groups: the rotation vector is about z, translation in the plane *)
Plane(ty) == Dim(ty) = 2
LogBad(e) ==
  LET a == TLCEval(Pick(e.ty, Log3(e.q, T3(e.ty, e.t), 1)))
      b == TLCEval(Pick(e.ty, Log3(e.q, T3(e.ty, e.t), -1))) IN
  F(NearV(e.out, a, e.tol) \/ (HalfTurn(e.q) /\ NearV(e.out, b, e.tol)), "log")
ExpBad(e) ==
  LET R == [m |-> Rot3(e.q), d |-> Norm2(e.q)] n == Dim(e.ty)
      t == TLCEval(ExpT3(e.q, T3(e.ty, e.t), e.turns))
      f == FixM(R) IN
  F(\A i \in 1..n : \A j \in 1..n : Abs(e.out[i][j] - f[i][j]) <= e.tol, "exp_rotation") \cup
  F(Rigid(e.ty) => \A i \in 1..n : Abs(e.out[i][n + 1] - t[i]) <= e.ttol, "exp_translation")

(* D_k : recorded derivative of the operation along direction k (a matrix tangent to
   the value E); the jacobian's column k is its tangent vector: D_k = E hat(J_k)     *)
DerivBad(e) ==
  F(\A k \in DOMAIN e.D : NearM(e.D[k], PMul(e.E, Hat(e.ty, Col(e.J, k))), e.tol), e.what)
VecBad(e) == F(NearM(e.J, e.D, e.tol), e.what)
InvBad(e) == F(NearM(PMul(e.A, e.B), Scale(IdM(Len(e.A)), S), e.tol), e.what)
(* gradients of <V, f(x)> along the tangent directions *)
DirBad(e) == F(\A k \in DOMAIN e.D : Abs(e.g[k] - Inner(e.V, e.D[k])) <= e.tol, e.what)

Contract(ty, V, A, B) ==  \* <V, A hat(e_k) B> for all k
  [k \in DOMAIN Basis(ty) |-> Fix(Inner(V, Top(ty, MatMul(MatMul(A.m, Basis(ty)[k]), B.m))), A.d * B.d)]
PtC(ty, p) == [m |-> IF Rigid(ty) THEN Trans(<<Pt(p)>>) ELSE Trans(<<p>>), d |-> 1]
NegE(Z) == [m |-> Scale(Z.m, -1), d |-> Z.d]
GradBad(e) ==
  LET ty == e.ty x == TLCEval(X(e)) o == One(ty) IN
  CASE e.f = "compose" -> LET y == TLCEval(Y(e)) IN
         F(NearV(e.gx, Contract(ty, e.V, x, y), e.tol), "grad_compose_1") \cup
         F(NearV(e.gy, Contract(ty, e.V, Mul(x, y), o), e.tol), "grad_compose_2")
    [] e.f = "between" -> LET y == TLCEval(Y(e)) IN
         F(NearV(e.gx, Contract(ty, e.V, NegE(o), Between(ty, x, y)), e.tol), "grad_between_1") \cup
         F(NearV(e.gy, Contract(ty, e.V, Between(ty, x, y), o), e.tol), "grad_between_2")
    [] e.f = "inverse" -> F(NearV(e.gx, Contract(ty, e.V, NegE(o), Inv(ty, x)), e.tol), "grad_inverse")
    [] e.f = "act" -> F(NearV(e.gx, Contract(ty, e.V, x, PtC(ty, e.p)), e.tol), "grad_act_group") \cup
         F(NearV(e.gy, [j \in 1..Dim(ty) |-> Fix(Sum([i \in 1..Dim(ty) |-> e.V[i][1] * x.m[i][j]]), x.d)], e.tol), "grad_act_point")
    [] e.f = "unact" -> LET xi == TLCEval(Inv(ty, x)) IN
         F(NearV(e.gx, Contract(ty, e.V, NegE(o), Mul(xi, PtC(ty, e.p))), e.tol), "grad_unact_group") \cup
         F(NearV(e.gy, [j \in 1..Dim(ty) |-> Fix(Sum([i \in 1..Dim(ty) |-> e.V[i][1] * xi.m[i][j]]), xi.d)], e.tol), "grad_unact_point")
    [] e.f = "adjoint" ->   \* d Ad(x) = Ad(x) ad(e_k)
         LET B == Basis(ty)
             ad(k) == Trans([c \in DOMAIN B |-> Vee(ty, AddM(MatMul(B[k], B[c]), Scale(MatMul(B[c], B[k]), -1)))])
             A == TLCEval(Ad(ty, x)) IN
         F(NearV(e.gx, [k \in DOMAIN B |-> Fix(Inner(e.V, MatMul(A.m, ad(k))), A.d)], e.tol), "grad_adjoint")

Vecs(ty) == Basis(ty)
HatBad(e) == F(NearM(e.out, Scale(Hat(e.ty, e.v), S), e.tol), "hat") \cup F(NearV(e.back, [i \in DOMAIN e.v |-> S * e.v[i]], e.tol), "vee")
(* project is the adjoint of lift; left projection contracts with the tangent basis at x *)
LiftBad(e) == F(NearM(e.lift, Scale(Top(e.ty, Hat(e.ty, e.v)), S), e.tol), "lift") \cup
              F(NearV(e.proj, [k \in DOMAIN Basis(e.ty) |-> S * Inner(e.M, Top(e.ty, Basis(e.ty)[k]))], e.tol), "project")
LeftBad(e) == LET x == TLCEval(X(e)) IN
  F(NearV(e.out, Contract(e.ty, e.M, x, One(e.ty)), e.tol), e.what)
QuatBad(e) ==
  LET N == Norm2(e.q) IN
  F(\A i, j \in 1..4 : Abs(e.out[i] * e.out[j] * N - e.q[i] * e.q[j] * S * S) <= e.tol * S * 4, "quaternion") \cup
  F(e.out[1] >= 0, "quaternion_sign")
Q2RBad(e) == F(NearM(e.out, FixM([m |-> Rot3(e.q), d |-> Norm2(e.q)]), e.tol), "rotation_of_quaternion")
(* small rotations 1e-3 m (scale 1e6) and translations rho: series to third order *)
M6 == 1000000
SeriesBad(e) ==
  LET w == e.m p == T3(e.ty, e.t) n == Dim(e.ty)
      H == Hat("SO3", w) H2 == MatMul(H, H)
      c1 == Cross(w, p) c2 == Cross(w, c1)
      R(i, j) == (IF i = j THEN M6 ELSE 0) + 1000 * H[i][j] + H2[i][j] \div 2
      t(i) == M6 * p[i] + 500 * c1[i] + c2[i] \div 6 IN
  F(\A i \in 1..n : \A j \in 1..n : Abs(e.out[i][j] - R(i, j)) <= e.tol, "exp_small") \cup
  F(Rigid(e.ty) => \A i \in 1..n : Abs(e.out[i][n + 1] - t(i)) <= e.tol * 3, "exp_small_translation") \cup
  F(NearV(e.log, Pick(e.ty, [i \in 1..6 |-> IF i <= 3 THEN M6 * p[i] ELSE 1000 * w[i - 3]]), e.tol * 3), "log_small")
(* real vector groups *)
SM(v) == [i \in DOMAIN v |-> S * v[i]]
RnBad(e) ==
  LET x == e.x y == e.y n == Len(x) I == Scale(IdM(n), S) J(s) == Scale(IdM(n), s * S) IN
  F(NearV(e.compose, SM([i \in 1..n |-> x[i] + y[i]]), e.tol), "rn_compose") \cup
  F(NearV(e.between, SM([i \in 1..n |-> y[i] - x[i]]), e.tol), "rn_between") \cup
  F(NearV(e.local, SM([i \in 1..n |-> y[i] - x[i]]), e.tol), "rn_local") \cup
  F(NearV(e.inverse, SM([i \in 1..n |-> -x[i]]), e.tol), "rn_inverse") \cup
  F(NearV(e.retract, SM([i \in 1..n |-> x[i] + y[i]]), e.tol), "rn_retract") \cup
  F(NearV(e.log, SM(x), e.tol) /\ NearV(e.exp, SM(x), e.tol), "rn_exp_log") \cup
  F(NearM(e.adjoint, I, e.tol), "rn_adjoint") \cup
  F(NearM(e.jc[1], I, 1) /\ NearM(e.jc[2], I, 1), "rn_compose_jacobian") \cup
  F(NearM(e.jb[1], J(-1), 1) /\ NearM(e.jb[2], I, 1), "rn_between_jacobian") \cup
  F(NearM(e.jl[1], J(-1), 1) /\ NearM(e.jl[2], I, 1), "rn_local_jacobian") \cup
  F(NearM(e.ji[1], J(-1), 1), "rn_inverse_jacobian") \cup
  F(NearM(e.jg[1], I, 1) /\ NearM(e.je[1], I, 1), "rn_exp_log_jacobian")

Judge(e) ==
  CASE e.op \in {"compose", "between", "inverse", "matrix", "adjoint", "act", "unact", "actrot"} -> AlgBad(e)
    [] e.op = "log" -> LogBad(e)
    [] e.op = "exp" -> ExpBad(e)
    [] e.op = "deriv" -> DerivBad(e)
    [] e.op = "dvec" -> VecBad(e)
    [] e.op = "jinv" -> InvBad(e)
    [] e.op = "dir" -> DirBad(e)
    [] e.op = "grad" -> GradBad(e)
    [] e.op = "hat" -> HatBad(e)
    [] e.op = "lift" -> LiftBad(e)
    [] e.op = "left" -> LeftBad(e)
    [] e.op = "quat" -> QuatBad(e)
    [] e.op = "q2r" -> Q2RBad(e)
    [] e.op = "series" -> SeriesBad(e)
    [] e.op = "rn" -> RnBad(e)
    [] e.op = "same" -> F(NearM(e.a, e.b, e.tol), e.what)
    [] e.op = "outcome" -> F(e.res = e.exp, e.what)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == Judge(Trace[l]) IN
             IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
