------------------------------- MODULE LieMC -------------------------------
(* Histories over the cube group with small integer translations: every element is
   reached by multiplications with generators, inversion and differences.  The
   group axioms, the adjoint representation and the jacobian formulas of LieAlg are
   invariants; every transition is replayed in both packages.                     *)
EXTENDS LieAlg, TLC, Json
CONSTANTS TY, T
VARIABLES x, act
Zero == [i \in 1..Dim(TY) |-> 0]
Unit(i) == [j \in 1..Dim(TY) |-> IF i = j THEN 1 ELSE 0]
Gens ==
  CASE TY = "SO2" -> [a |-> [q |-> <<1, 0, 0, 1>>, t |-> Zero]]
    [] TY = "SE2" -> [a |-> [q |-> <<1, 0, 0, 1>>, t |-> <<1, 0>>], b |-> [q |-> <<1, 0, 0, 0>>, t |-> <<0, 1>>]]
    [] TY = "SO3" -> [a |-> [q |-> <<1, 1, 0, 0>>, t |-> Zero], b |-> [q |-> <<1, 0, 0, 1>>, t |-> Zero]]
    [] TY = "SE3" -> [a |-> [q |-> <<1, 1, 0, 0>>, t |-> <<1, 0, 0>>], b |-> [q |-> <<1, 0, 0, 1>>, t |-> <<1, 0, 0>>]]
Unscale(X) == [m |-> TLCEval([i \in DOMAIN X.m |-> [j \in DOMAIN X.m[i] |-> X.m[i][j] \div X.d]]), d |-> 1]
GTab == TLCEval([g \in DOMAIN Gens |-> Unscale(El(TY, Gens[g].q, Gens[g].t))])
G(g) == GTab[g]
Inside(X) == IF Rigid(TY) THEN \A i \in 1..Dim(TY) : X.m[i][Dim(TY) + 1] \in -T..T ELSE TRUE

Init == x = One(TY) /\ act = [op |-> "init", g |-> ""]
Do(op, g, X) == /\ Inside(X) /\ x' = X /\ act' = [op |-> op, g |-> g]
Next == \/ \E g \in DOMAIN Gens :
             \/ Do("right", g, Mul(x, G(g)))              \* x o g
             \/ Do("left", g, Mul(G(g), x))               \* g o x
             \/ Do("from", g, Between(TY, x, G(g)))       \* x^-1 o g
             \/ Do("to", g, Between(TY, G(g), x))         \* g^-1 o x
             \/ Do("retract", g, Mul(x, G(g)))            \* x (+) log g
        \/ Do("inverse", "", Inv(TY, x))
        \/ Do("local", "", x)                             \* x (-) x = 0, 1 (+) (x (-) 1) = x
Spec == Init /\ [][Next]_<<x, act>>
View == x
P0 == [i \in 1..Dim(TY) |-> i]
Alg == /\ Same(Mul(x, Inv(TY, x)), One(TY)) /\ Same(Inv(TY, Inv(TY, x)), x)
       /\ \A g \in DOMAIN Gens :
            /\ Same(Mul(x, Between(TY, x, G(g))), G(g))
            /\ Same(Mul(Mul(G(g), x), Inv(TY, x)), G(g))
            /\ Same(Inv(TY, Mul(x, G(g))), InvProd(TY, x, G(g)))
            /\ MatMul(Ad(TY, x).m, Ad(TY, G(g)).m) = Ad(TY, Mul(x, G(g))).m
            /\ Act(TY, Mul(x, G(g)), P0).v = Act(TY, x, Act(TY, G(g), P0).v).v
(* X hat(v) X^-1 = hat(Ad v); the group acts by hat *)
BasisTab == TLCEval(Basis(TY))
AdHat == LET xi == Inv(TY, x).m A == Ad(TY, x).m IN \A k \in 1..Dof(TY) :
  MatMul(MatMul(x.m, BasisTab[k]), xi) = Hat(TY, [i \in 1..Dof(TY) |-> A[i][k]])
BasisHat == \A k \in 1..Dof(TY) : LET e == [i \in 1..Dof(TY) |-> IF i = k THEN 1 ELSE 0] IN
              Basis(TY)[k] = Hat(TY, e) /\ Vee(TY, Basis(TY)[k]) = e
(* closed forms of the point jacobians *)
PointJac ==
  LET n == Dim(TY) r == Act(TY, Inv(TY, x), P0).v
      J == UnactJacG(TY, x, P0).m K == ActJacG(TY, x, P0).m IN
  TY = "SE3" => /\ \A i, j \in 1..3 : J[i][j] = (IF i = j THEN -1 ELSE 0) /\ K[i][j] = x.m[i][j]
                /\ \A j \in 1..3 : [i \in 1..3 |-> J[i][3 + j]] = Cross(r, Unit(j))
Emit == IF TLCGet("level") = 1 THEN PrintT(ToJson([init |-> x.m])) ELSE TRUE
Edge == (IF act.op = "init" THEN PrintT(ToJson([init |-> x.m])) ELSE TRUE)
        /\ PrintT(ToJson([s |-> x.m, a |-> act', t |-> x'.m]))
=============================================================================
