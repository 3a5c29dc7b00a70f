-------------------------------- MODULE PushMC --------------------------------
(* Theorems about pushing and the Gaussian-process prior on small grids.            *)
EXTENDS Field
CONSTANT Size
VARIABLES e, g
vars == <<e, g>>
P0 == [x |-> 0, y |-> 0, k |-> 0]
Init == e = [o1 |-> P0, o2 |-> P0, e1 |-> P0, e2 |-> P0, c2 |-> 2] /\ g = [Q |-> << <<2, 1>>, <<1, 3>> >>, a |-> 1, b |-> 1]
Mass == LET s(p) == p.x + p.y + p.k IN s(e.o1) + s(e.o2) + s(e.e1) + s(e.e2)
Grow == \E f \in {"o1", "o2", "e1", "e2"}, h \in {"x", "y", "k"} :
  /\ e[f][h] < (IF h = "k" THEN 3 ELSE 1)
  /\ Mass < Size
  /\ e' = [e EXCEPT ![f][h] = @ + 1] /\ UNCHANGED g
Gp == e = [o1 |-> P0, o2 |-> P0, e1 |-> P0, e2 |-> P0, c2 |-> 2] /\ \E i \in {"a", "b"} : g[i] < 6 /\ g' = [g EXCEPT ![i] = @ + 1] /\ UNCHANGED e
Next == Grow \/ Gp
Spec == Init /\ [][Next]_vars
(* translations: the error is quadratic in them, so central differences are exact *)
Moved(p, i, s) == LET d == Turn(p.k, Unit2(i)) IN [p EXCEPT !.x = @ + s * d[1], !.y = @ + s * d[2]]
Names == <<"o1", "o2", "e1", "e2">>
Sub(x, y) == [i \in 1..3 |-> <<x[i][1] - y[i][1], x[i][2] - y[i][2]>>]
Slope == \A v \in 1..4, i \in 1..2 :
  Sub(PushError([e EXCEPT ![Names[v]] = Moved(@, i, 1)]), PushError([e EXCEPT ![Names[v]] = Moved(@, i, -1)])) =
  [r \in 1..3 |-> <<2 * PushColumn(e, v, i)[r][1], 2 * PushColumn(e, v, i)[r][2]>>]
(* everything turned and shifted together leaves the error unchanged: the jacobians of a
   common motion cancel                                                              *)
Common == \A i \in 1..3 :
  LET \* a common motion of the world, seen in each pose's own frame
      ad(p) == IF i < 3 THEN [t |-> Turn(-p.k, Unit2(i)), a |-> 0] ELSE [t |-> Turn(-p.k, <<-p.y, p.x>>), a |-> 1]
      \* (turning about the origin moves the contact differences along)
      along(v, p, r, z) == LET d == ad(p) IN PushColumn(e, v, 1)[r][z] * d.t[1] + PushColumn(e, v, 2)[r][z] * d.t[2] + PushColumn(e, v, 3)[r][z] * d.a IN
  \A r \in 1..3, z \in 1..2 : along(1, e.o1, r, z) + along(2, e.o2, r, z) + along(3, e.e1, r, z) + along(4, e.e2, r, z) = 0
(* the information is the inverse of the covariance of white noise integrated over dt:
   Qc^-1 [dt^3 / 3, dt^2 / 2; dt^2 / 2, dt], here times 6 b^3 and with Qc = 1          *)
Inverse == LET a == g.a b == g.b I == GPInfo(<< <<1>> >>, a, b)
               S == << <<2 * a * a * a, 3 * a * a * b>>, <<3 * a * a * b, 6 * a * b * b>> >> IN
  MatMat(I, S) = << <<6 * b * b * b * a * a * a, 0>>, <<0, 6 * b * b * b * a * a * a>> >>
Thm == Slope /\ Common /\ Inverse
=============================================================================
