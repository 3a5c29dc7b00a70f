------------------------------- MODULE Gauss -------------------------------
(* Gaussians over poses and vectors: their store and their changes of coordinates.

   An element is [ty, R, t]: ty "V" (R = <<>>), "SO2" / "SO3" (t = <<>>) or "SE2" / "SE3",
   R a rotation by right angles (integer matrix), t an integer translation.
   A Gaussian is [mean, prec]: a sequence of elements and an integer matrix over all their
   tangent coordinates.  Tangents stay free of rotation, where the derivative of the
   exponential is exactly I - ad / 2 and its inverse I + ad / 2 (ad squared is 0); their
   coordinates are even so that everything remains an integer.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
Mul(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> SumF([k \in DOMAIN B |-> A[i][k] * B[k][j]], Len(B))]])
Tr(A0) == LET A == TLCEval(A0) IN TLCEval([i \in DOMAIN A[1] |-> [j \in DOMAIN A |-> A[j][i]]])
Ap(A0, x0) == LET A == TLCEval(A0) x == TLCEval(x0) IN TLCEval([i \in DOMAIN A |-> SumF([k \in DOMAIN x |-> A[i][k] * x[k]], Len(x))])
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Sym(A) == \A i, j \in DOMAIN A : A[i][j] = A[j][i]
Sub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Add(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Zeros(n) == [i \in 1..n |-> 0]

Dof(e) == CASE e.ty = "V" -> Len(e.t) [] e.ty = "SO2" -> 1 [] e.ty = "SO3" -> 3 [] e.ty = "SE2" -> 3 [] e.ty = "SE3" -> 6
RECURSIVE DofAll(_)
DofAll(m) == IF m = <<>> THEN 0 ELSE Dof(Head(m)) + DofAll(Tail(m))
Turned(e) == Dof(e) - Len(e.t)        \* rotation coordinates of an element

\* tangent coordinates of m at v (same rotation), and back
Local(v, m) == (IF v.ty = "V" THEN Sub(m.t, v.t) ELSE IF v.t = <<>> THEN <<>> ELSE Ap(Tr(v.R), Sub(m.t, v.t)))
               \o Zeros(Turned(v))
Retract(v, u) ==
  LET x == SubSeq(u, 1, Len(v.t)) IN
  [v EXCEPT !.t = IF v.ty = "V" THEN Add(v.t, x) ELSE IF v.t = <<>> THEN <<>> ELSE Add(v.t, Ap(v.R, x))]
\* s times half of ad(u), for a tangent u without rotation
Half(ty, u, s) ==
  LET a == u[1] \div 2 b == u[2] \div 2 IN
  IF ty = "SE2" THEN << <<0, 0, s * b>>, <<0, 0, -(s * a)>>, <<0, 0, 0>> >>
  ELSE LET c == u[3] \div 2 z == Zeros(6) IN
       << <<0, 0, 0, 0, -(s * c), s * b>>, <<0, 0, 0, s * c, 0, -(s * a)>>, <<0, 0, 0, -(s * b), s * a, 0>>, z, z, z >>
Plus(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> A[i][j] + B[i][j]]])
\* derivative of the exponential at u
Jexp(v, u) == IF v.ty \in {"SE2", "SE3"} THEN Plus(Id(Dof(v)), Half(v.ty, u, -1)) ELSE Id(Dof(v))
Jinv(v, u) == IF v.ty \in {"SE2", "SE3"} THEN Plus(Id(Dof(v)), Half(v.ty, u, 1)) ELSE Id(Dof(v))
Congruent(A, J0) == LET J == TLCEval(J0) IN Mul(Mul(Tr(J), A), J)

LocalG(v, g) ==
  LET u == TLCEval(Local(v, g.mean[1])) L == TLCEval(Congruent(g.prec, Jexp(v, u))) IN [mean |-> u, prec |-> L, eta |-> Ap(L, u)]
RetractG(v, u, L) == TLCEval([mean |-> << Retract(v, u) >>, prec |-> Congruent(L, Jinv(v, u))])

\* what an update is refused for ("" when it is accepted)
Refusal(g, mean, prec, odd) ==
  IF Len(mean) # Len(g.mean) THEN "length"
  ELSE IF odd # "" THEN odd                     \* wrong type, batch or device of the tensors given
  ELSE IF Len(prec) # DofAll(g.mean) \/ \E i \in DOMAIN prec : Len(prec[i]) # DofAll(g.mean) THEN "shape"
  ELSE IF ~Sym(prec) THEN "symmetry" ELSE ""
Update(g, mean, prec, odd) == IF Refusal(g, mean, prec, odd) = "" THEN [mean |-> mean, prec |-> prec] ELSE g
\* local coordinates are defined for one element of the type of the variable
LocalRefused(v, g) == Len(g.mean) # 1 \/ g.mean[1].ty # v.ty
=============================================================================
