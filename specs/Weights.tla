------------------------------ MODULE Weights ------------------------------
(* Exact semantics of cost weights and robust losses.

   A case is one batch element of a weighted, possibly robust cost function:
     e    error (integers), J its jacobian rows (integers)
     w    weights: <<s>> for a scale weight, one per dimension for a diagonal one,
          <<>> for the GP weight given by Q (SPD integer matrix) and dt (integer)
     loss "none" | "huber" | "hinge" | "welsch" | "gm";  flat: loss per dimension
     r,mu loss parameters, so chosen that everything is rational:
          huber, hinge : radius = r^2          welsch : radius = r / ln 2
          gm           : radius = r, control value mu

   Rho is the robust loss as a function of the squared norm, DRho its derivative.
   Rationals are reduced pairs <<num, den>>, den > 0.                            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>

IsSquare(n) == \E k \in 0..n : k * k = n
Sqrt(n) == CHOOSE k \in 0..n : k * k = n
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* is Rho(x) rational in the projection used here?
Exact(loss, x, r) ==
  CASE loss = "huber" -> x <= r * r \/ IsSquare(x)
    \* discontinuous derivative at the radius, which is exact only when its log is
    [] loss = "hinge" -> (x < r * r \/ IsSquare(x)) /\ (x = r * r => r = 1)
    [] loss = "welsch" -> x % r = 0 /\ x \div r <= 12
    [] OTHER -> TRUE

\* loss of a squared norm x (for "welsch": multiplied by ln 2)
Rho(loss, x, r, mu) ==
  CASE loss = "huber" -> IF x > r * r THEN <<2 * r * Sqrt(x) - r * r, 1>> ELSE <<x, 1>>
    [] loss = "hinge" -> IF x > r * r THEN <<Sqrt(x) - r, 1>> ELSE <<0, 1>>
    [] loss = "welsch" -> LET p == Pow2(x \div r) IN Red(r * (p - 1), p)
    [] loss = "gm" -> Red(mu * r * x, mu * r + x)
    [] OTHER -> <<x, 1>>

DRho(loss, x, r, mu) ==
  CASE loss = "huber" -> IF x > r * r THEN Red(r, Sqrt(x)) ELSE <<1, 1>>
    [] loss = "hinge" -> IF x > r * r THEN Red(1, 2 * Sqrt(x)) ELSE <<0, 1>>
    [] loss = "welsch" -> Red(1, Pow2(x \div r))
    [] loss = "gm" -> Red(mu * r * mu * r, (mu * r + x) * (mu * r + x))
    [] OTHER -> <<1, 1>>

Scale(q, n, d) == Red(q[1] * n, q[2] * d)

-----------------------------------------------------------------------------
N(c) == Len(c.e)
W(c, i) == IF Len(c.w) = 1 THEN c.w[1] ELSE c.w[i]
We(c) == [i \in 1..N(c) |-> W(c, i) * c.e[i]]
WJ(c) == [i \in 1..N(c) |-> [k \in DOMAIN c.J[i] |-> W(c, i) * c.J[i][k]]]
Sq(c) == Sum([i \in 1..N(c) |-> We(c)[i] * We(c)[i]])
\* squared norm the loss sees for row i
X(c, i) == IF c.flat = 1 \/ c.loss = "none" THEN We(c)[i] * We(c)[i] ELSE Sq(c)
Usable(c) == \A i \in 1..N(c) : Exact(c.loss, X(c, i), c.r)

\* squares of the components of weighted_error()
H2(c) == [i \in 1..N(c) |->
            LET q == Rho(c.loss, X(c, i), c.r, c.mu) IN
            IF c.flat = 1 \/ c.loss = "none" THEN q ELSE Scale(q, 1, N(c))]
\* weighted_error() itself when there is no loss
Werr(c) == We(c)
\* products of rows of the rescaled error / jacobian: e_i J_ik, e_i^2, J_ik J_i1
D(c, i) == DRho(c.loss, X(c, i), c.r, c.mu)
EJ(c) == [i \in 1..N(c) |-> [k \in DOMAIN c.J[i] |-> Scale(D(c, i), We(c)[i] * WJ(c)[i][k], 1)]]
EE(c) == [i \in 1..N(c) |-> Scale(D(c, i), We(c)[i] * We(c)[i], 1)]
JJ(c) == [i \in 1..N(c) |-> [k \in DOMAIN c.J[i] |-> Scale(D(c, i), WJ(c)[i][k] * WJ(c)[i][1], 1)]]
\* gradient of weighted_error()[i]^2 w.r.t. the variable
GR(c) == [i \in 1..N(c) |-> [k \in DOMAIN c.J[i] |->
           IF c.flat = 1 \/ c.loss = "none" THEN Scale(D(c, i), 2 * We(c)[i] * WJ(c)[i][k], 1)
           ELSE Scale(D(c, i), 2 * Sum([j \in 1..N(c) |-> We(c)[j] * WJ(c)[j][k]]), N(c))]]
Zero(c) == IF \A i \in DOMAIN c.w : c.w[i] = 0 THEN 1 ELSE 0

\* GP weight: e'We for W = [12/dt^3 Q, -6/dt^2 Q; -6/dt^2 Q, 4/dt Q]
GPW(c) == LET n == Len(c.Q) IN
  [i \in 1..2 * n |-> [j \in 1..2 * n |->
     LET q == c.Q[((i - 1) % n) + 1][((j - 1) % n) + 1] IN   \* times dt^3
     IF i <= n /\ j <= n THEN 12 * q
     ELSE IF i > n /\ j > n THEN 4 * c.dt * c.dt * q ELSE -6 * c.dt * q]]
Quad(M, a, b) == Sum([i \in DOMAIN a |-> a[i] * Sum([j \in DOMAIN b |-> M[i][j] * b[j]])])
Col(J, k) == [i \in DOMAIN J |-> J[i][k]]
GPEE(c) == Red(Quad(GPW(c), c.e, c.e), c.dt * c.dt * c.dt)
GPEJ(c) == [k \in DOMAIN c.J[1] |-> Red(Quad(GPW(c), Col(c.J, k), c.e), c.dt * c.dt * c.dt)]
GPJJ(c) == [k \in DOMAIN c.J[1] |-> Red(Quad(GPW(c), Col(c.J, k), Col(c.J, 1)), c.dt * c.dt * c.dt)]

\* everything the implementation should return for a case
Expect(c) == [h2 |-> H2(c), ej |-> EJ(c), ee |-> EE(c), jj |-> JJ(c), gr |-> GR(c), zero |-> Zero(c)]
=============================================================================
