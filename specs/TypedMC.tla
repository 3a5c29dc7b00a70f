------------------------------ MODULE TypedMC ------------------------------
(* All short histories of constructors, views, conversions, group operations, in-place
   updates and refused operations over three slots.                                *)
EXTENDS Typed, Json
CONSTANT Depth
VARIABLES s, n, act
A == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
B == << <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>
PA == Join(A, <<1, 0, -2>>)
PB == Join(B, <<0, 3, 1>>)
Bad == << <<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Start == LET s0 == Empty(3)
             s1 == Put(s0, 1, Obj("raw", "none", "f", FALSE, TRUE), <<A, B>>, 0, <<>>)
             s2 == Put(s1, 2, Obj("lie", "SO3", "f", FALSE, TRUE), <<B>>, 0, <<>>) IN
         { Tidy(Put(s2, 3, Obj("lie", "SE3", "f", FALSE, TRUE), <<PA, PB>>, 0, <<>>)),
           Tidy(Put(s2, 3, Obj("raw", "none", "d", TRUE, TRUE), <<B, A>>, 0, <<>>)),
           Tidy(Put(s2, 3, Obj("raw", "none", "f", FALSE, TRUE), <<Bad>>, 0, <<>>)) }
L == {i \in 1..3 : s.h[i] # 0 /\ O(s, i).k = "lie"}
W == {i \in 1..3 : s.h[i] # 0 /\ O(s, i).k = "raw"}
Ty == {"SO3", "SE3"}
SameDt(a, b) == O(s, a).dt = O(s, b).dt
Alone(a) == \A j \in 1..3 : s.h[j] = s.h[a] \/ O(s, j).st # O(s, a).st
Grads(a) == LET x == Val(s, a) ty == O(s, a).ty IN   \* gradients whose projection is a half axis turn
  {[k \in DOMAIN x |-> Lift(ty, Mul(Rot(x[k]), << <<1, -1, 0>>, <<1, 0, 2>>, <<0, 2, 0>> >>))],
   [k \in DOMAIN x |-> IF ty = "SE3" THEN Join(Rot(x[k]), <<1, k, -1>>) ELSE Mul(Rot(x[k]), << <<0, 0, 1>>, <<0, 5, 0>>, <<-1, 0, 0>> >>)]}
Ev ==
  {[op |-> "ctor", d |-> d, a |-> a, ty |-> ty] : d \in {2, 3}, a \in W, ty \in Ty} \cup
  {[op |-> "from", d |-> d, a |-> a, ty |-> ty] : d \in {2, 3}, a \in W, ty \in Ty} \cup
  {[op |-> "as", d |-> 3, a |-> a, ty |-> ty, dt |-> dt] : a \in W, ty \in {"SO3", "none"}, dt \in {"f", "d"}} \cup
  {[op |-> "as", d |-> 3, a |-> a, ty |-> O(s, a).ty, dt |-> dt] : a \in L, dt \in {"f", "d"}} \cup
  {[op |-> "new", d |-> 3, a |-> p[1], b |-> p[2]] : p \in {q \in L \X (W \cup L) : q[2] \in W \/ SameDt(q[1], q[2])}} \cup
  {[op |-> "clone", d |-> d, a |-> a] : d \in {2, 3}, a \in L} \cup
  {[op |-> "to", d |-> 3, a |-> a, dt |-> dt] : a \in L, dt \in {"f", "d"}} \cup
  {[op |-> "slice", d |-> 3, a |-> a, lo |-> lo, hi |-> 2] : a \in {i \in L : Len(O(s, i).ix) = 2}, lo \in {1, 2}} \cup
  {[op |-> o, d |-> 3, a |-> p[1], b |-> p[2]] : o \in {"compose", "mul", "between"}, p \in {q \in L \X (L \cup W) : SameDt(q[1], q[2]) /\ Bcast(O(s, q[1]).ix, O(s, q[2]).ix)}} \cup
  {[op |-> "cat", d |-> 3, a |-> p[1], b |-> p[2]] : p \in {q \in L \X L : SameDt(q[1], q[2]) /\ Len(O(s, q[1]).ix) + Len(O(s, q[2]).ix) <= 3}} \cup
  {[op |-> "inv", d |-> 3, a |-> a] : a \in L} \cup
  {[op |-> "write", a |-> a, rows |-> [k \in DOMAIN O(s, a).ix |-> IF k = 1 THEN B ELSE Id3]] : a \in {i \in W : ~O(s, i).rg /\ ShapeOk("SO3", Val(s, i)[1])}} \cup
  {[op |-> "set", a |-> p[1], b |-> p[2]] : p \in {q \in L \X (L \cup W) : Alone(q[1]) /\ SameDt(q[1], q[2]) /\ ~O(s, q[1]).rg /\ ~O(s, q[2]).rg}} \cup
  {[op |-> "step", a |-> p[1], marked |-> TRUE, M |-> p[2], c |-> 1] :
      p \in UNION {{<<a, M>> : M \in Grads(a)} : a \in {i \in L : Alone(i) /\ ~O(s, i).rg}}} \cup
  {[op |-> "step", a |-> a, marked |-> FALSE, M |-> Val(s, a), c |-> 1] : a \in {i \in L : ~O(s, i).rg}} \cup
  {[op |-> "bad", a |-> a, f |-> f] : a \in L, f \in {"sin", "index", "add", "jhat"}} \cup
  {[op |-> "eucl", d |-> 3, a |-> p[1], b |-> p[2], f |-> f] : f \in {"add", "double"},
      p \in {q \in L \X L : SameDt(q[1], q[2]) /\ O(s, q[1]).ty = O(s, q[2]).ty /\ Bcast(O(s, q[1]).ix, O(s, q[2]).ix)}}
Init == s \in Start /\ n = 0 /\ act = [op |-> "init"]
Next == n < Depth /\ \E e \in Ev : LET r == TLCEval(Step(s, e)) IN
  s' = Tidy(r.s) /\ n' = n + 1 /\ act' = e @@ [r |-> r.r]
Spec == Init /\ [][Next]_<<s, n, act>>
View == <<s, n>>
(* group tensors stay in their group; refused operations change nothing *)
Closed == Typed(s)
Edge == (IF n = 0 THEN PrintT(ToJson([init |-> [s |-> s, n |-> n]])) ELSE TRUE)
        /\ PrintT(ToJson([s |-> [s |-> s, n |-> n], a |-> act', t |-> [s |-> s', n |-> n'], obs |-> Observe(s')]))
=============================================================================
