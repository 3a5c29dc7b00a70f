-------------------------------- MODULE KinMC --------------------------------
(* All small kinematic trees: joints are added and turned one at a time.        *)
EXTENDS Kin, Json
CONSTANTS MaxJoints, Axes, Origins
VARIABLES r, q
vars == <<r, q>>
Qt == {[w |-> 1, t |-> 0], [w |-> 1, t |-> 1], [w |-> 0, t |-> 1], [w |-> 1, t |-> -1]}
Home == [w |-> 1, t |-> 0]
O0 == [xyz |-> <<0, 0, 0>>, rpy |-> << <<1, 0, 1>>, <<1, 0, 1>>, <<1, 0, 1>> >>]
O1 == [xyz |-> <<1, 2, 0>>, rpy |-> << <<0, 1, 1>>, <<1, 0, 1>>, <<1, 0, 1>> >>]
O2 == [xyz |-> <<0, -1, 3>>, rpy |-> << <<0, 1, 1>>, <<0, -1, 1>>, <<1, 0, 1>> >>]
O3 == [xyz |-> <<2, 0, 1>>, rpy |-> << <<-1, 0, 1>>, <<0, 1, 1>>, <<0, 1, 1>> >>]
Orig(k) == CASE k = 0 -> O0 [] k = 1 -> O1 [] k = 2 -> O2 [] k = 3 -> O3
Ax(k) == CASE k = 0 -> <<>> [] k = 1 -> <<1, 0, 0, 1>> [] k = 2 -> <<0, -1, 0, 1>> [] k = 3 -> <<0, 0, 1, 1>>
Joint(ty, pa, ax, o) == [type |-> ty, parent |-> pa, ax |-> ax, xyz |-> Orig(o).xyz, rpy |-> Orig(o).rpy]
Init == r = <<>> /\ q = <<>>
(* turning wraps around; sliding goes between -1, 0 and 1 *)
Turned(j, x) == IF Turning(j) THEN (CASE x = [w |-> 1, t |-> 0] -> [w |-> 1, t |-> 1] [] x = [w |-> 1, t |-> 1] -> [w |-> 0, t |-> 1]
                                      [] x = [w |-> 0, t |-> 1] -> [w |-> 1, t |-> -1] [] OTHER -> Home)
                ELSE IF x.t = 1 THEN [w |-> 1, t |-> -1] ELSE [w |-> 1, t |-> x.t + 1]
Add == /\ Len(r) < MaxJoints
       /\ \E ty \in {"revolute", "prismatic", "fixed"}, pa \in 0..Len(r), k \in Axes, o \in Origins :
            /\ (ty = "fixed" => k = CHOOSE x \in Axes : TRUE)
            /\ r' = Append(r, Joint(ty, pa, IF ty = "fixed" THEN <<>> ELSE Ax(k), o))
            /\ q' = [i \in 1..(Len(r) + 1) |-> Home]
(* joints are turned in order, so that each posture is reached once *)
Turn == \E i \in DOMAIN r : /\ Movable(r[i]) /\ \A k \in DOMAIN r : k > i => q[k] = Home
                            /\ Turned(r[i], q[i]) # Home
                            /\ q' = [q EXCEPT ![i] = Turned(r[i], @)] /\ UNCHANGED r
Next == Add \/ Turn
Spec == Init /\ [][Next]_vars
Show(rr, qq) == LET P == TLCEval(Poses(rr, qq)) IN
  [T |-> [i \in DOMAIN P |-> P[i].m],
   J |-> [l \in 0..Len(rr) |-> [j \in DOMAIN rr |-> Flat(JacS(rr, P, l, j))]],
   B |-> [l \in 0..Len(rr) |-> [j \in DOMAIN rr |-> Flat(JacB(rr, P, l, j))]]]
Edge == PrintT(ToJson([r |-> r', q |-> q', obs |-> Show(r', q')]))

(* theorems: with quarter turns and unit slides the central difference is exact *)
Fwd(j, x) == IF Turning(j) THEN Turned(j, x) ELSE [x EXCEPT !.t = @ + 1]
Bwd(j, x) == IF Turning(j) THEN Turned(j, Turned(j, Turned(j, x))) ELSE [x EXCEPT !.t = @ - 1]
Sub(A, B) == LET F(i, j) == A[i][j] - B[i][j] IN Mat(F, 4)
AddM(A, B) == LET F(i, j) == A[i][j] + B[i][j] IN Mat(F, 4)
Times(k, A) == LET F(i, j) == k * A[i][j] IN Mat(F, 4)
P0 == Poses(r, q)
Rigid == \A i \in DOMAIN P0 : P0[i].d = 1 /\ Mul(Rot(P0[i].m), Tp(Rot(P0[i].m))) = Id3
Slope == \A j \in DOMAIN r : Movable(r[j]) =>
  LET p == Poses(r, [q EXCEPT ![j] = Fwd(r[j], @)]) n == Poses(r, [q EXCEPT ![j] = Bwd(r[j], @)]) IN
  \A l \in 0..Len(r) : Sub(p[l + 1].m, n[l + 1].m) = Times(2, DPose(r, P0, l, j))
Curve == \A a, b \in DOMAIN r : (a # b /\ Movable(r[a]) /\ Movable(r[b])) =>
  LET At(x, y) == Poses(r, [q EXCEPT ![a] = x, ![b] = y])
      pp == At(Fwd(r[a], q[a]), Fwd(r[b], q[b])) pn == At(Fwd(r[a], q[a]), Bwd(r[b], q[b]))
      np == At(Bwd(r[a], q[a]), Fwd(r[b], q[b])) nn == At(Bwd(r[a], q[a]), Bwd(r[b], q[b])) IN
  \A l \in 0..Len(r) :
    Sub(AddM(pp[l + 1].m, nn[l + 1].m), AddM(pn[l + 1].m, np[l + 1].m)) = Times(4, DDPose(r, P0, l, a, b))
(* the derivative of a spatial column, by commuting the two derivatives of the pose *)
Commute == \A l \in 0..Len(r) : \A a, b \in DOMAIN r : (Movable(r[a]) /\ Movable(r[b]) /\ Above(r, a, l) /\ Above(r, b, l)) =>
  LET T == P0[l + 1].m d == P0[l + 1].d IN
  AddM(HatAt(DJacS(r, P0, l, b, a), T, d), HatV(Screw(r, P0, b), HatAt(Screw(r, P0, a), T, d))) = DDPose(r, P0, l, a, b)
(* the body jacobian is the velocity seen from the link: T hat(b) = hat(s) T *)
Seen == \A l \in 0..Len(r) : \A j \in DOMAIN r : Movable(r[j]) /\ Above(r, j, l) =>
  LET b == JacB(r, P0, l, j) T == P0[l + 1].m F(i, k) == Dot3(T[i], Col(HatAt(b, Join(Id3, Zero3), 1), k)) IN Mat(F, 4) = DPose(r, P0, l, j)
Thm == Rigid /\ Slope /\ Curve /\ Commute /\ Seen
=============================================================================
