----------------------------- MODULE WeightsMC -----------------------------
(* Every case of the grid; the losses are checked to be sound, and each case is
   printed with what the implementation must return for it.                     *)
EXTENDS Weights, Json, TLC
VARIABLES c
Losses == {"none", "huber", "hinge", "welsch", "gm"}
Es == {<<0, 0>>, <<1, -2>>, <<3, 4>>, <<2, 0>>, <<0, -3>>}
Ws == {<<0>>, <<1>>, <<-1>>, <<2>>, <<0, 1>>, <<2, 1>>, <<1, -1>>, <<0, 0>>}
Jm == <<<<1, -1>>, <<2, 3>>>>
Init == \E l \in Losses, f \in {0, 1}, e \in Es, w \in Ws, r \in {1, 2, 5}, m \in {1, 3} :
          /\ (l # "gm" => m = 1) /\ (l = "none" => r = 1 /\ f = 0)
          /\ c = [loss |-> l, flat |-> f, e |-> e, w |-> w, J |-> Jm, r |-> r, mu |-> m]
          /\ Usable(c)
          /\ PrintT(ToJson([c |-> c, x |-> Expect(c)]))
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

\* losses: Rho(0) = 0, Rho increasing with slope in [0, 1], DRho is its derivative
\* (secants of a concave function enclose the derivative)
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
Secant(l, x, y, r, m) ==       \* (Rho(y) - Rho(x)) / (y - x)
  LET a == Rho(l, x, r, m) b == Rho(l, y, r, m) IN
  Red(b[1] * a[2] - a[1] * b[2], a[2] * b[2] * (y - x))
Pts(l, r) == {x \in 0..49 : Exact(l, x, r) /\ (l \in {"huber", "hinge"} => IsSquare(x)) /\
                            (l = "welsch" => x \div r <= 7)}
\* for "welsch" Rho carries a factor ln 2 (0.693): compare with that factor
Sound ==
  LET l == c.loss r == c.r m == c.mu IN
  /\ Rho(l, 0, r, m)[1] = 0
  /\ \A x, y \in Pts(l, r) : x < y =>
       LET s == Secant(l, x, y, r, m)
           k == IF l = "welsch" THEN <<693, 1000>> ELSE <<1, 1>>
           k2 == IF l = "welsch" THEN <<694, 1000>> ELSE <<1, 1>>
           dx == DRho(l, x, r, m) dy == DRho(l, y, r, m)
       IN /\ (l = "hinge" /\ x <= r * r) \/ Le(s, Red(dx[1] * k2[1], dx[2] * k2[2]))
          /\ (l = "hinge" /\ x <= r * r) \/ Le(Red(dy[1] * k[1], dy[2] * k[2]), s)
          /\ s[1] >= 0
\* zero weights give zero errors and jacobians
ZeroInv == Zero(c) = 1 => /\ \A i \in 1..N(c) : H2(c)[i][1] = 0 /\ EE(c)[i][1] = 0
                          /\ \A i \in 1..N(c) : \A k \in DOMAIN c.J[i] : JJ(c)[i][k][1] = 0
=============================================================================
