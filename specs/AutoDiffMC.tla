----------------------------- MODULE AutoDiffMC -----------------------------
(* One cost function over a vector x, a rotation g and an auxiliary a, each with one
   row or two, through updates, evaluations, failing evaluations, copies and
   conversions.  Evaluations observe the values at the current rows and change
   nothing; failed evaluations change nothing; a copy continues from the same rows
   while the original keeps its own.                                              *)
EXTENDS AD, Json
VARIABLES x, o, act      \* o: rows of the original after a copy was taken (or <<>>)
Menu == [x |-> { << <<1>> >>, << <<2>>, <<-1>> >>, << <<3>>, <<0>> >> },
         g |-> { << <<0, 1>> >>, << <<1, 0>>, <<-1, 0>> >>, << <<0, -1>>, <<0, 1>> >> },
         a |-> { << <<2, -1>> >>, << <<1, 1>>, <<3, -2>> >> }]
Names == <<"x", "g", "a">>
Kind == [x |-> "V", g |-> "SO2", a |-> "V"]
Fn == << << [c |-> 1, f |-> <<<<1, 1>>, <<1, 1>>, <<3, 1>>>>], [c |-> 2, f |-> <<<<2, 1>>>>] >>,
         << [c |-> 1, f |-> <<<<2, 2>>, <<1, 1>>>>], [c |-> -1, f |-> <<<<3, 2>>, <<2, 1>>, <<1, 1>>>>], [c |-> 3, f |-> <<>>] >> >>
Batch(s) == LET b == {Len(s[n]) : n \in {"x", "g", "a"}} IN CHOOSE m \in b : \A k \in b : k <= m
Row(s, n, b) == IF Len(s[n]) = 1 THEN s[n][1] ELSE s[n][b]
At(s, b) == [i \in 1..3 |-> [kind |-> Kind[Names[i]], v |-> Row(s, Names[i], b)]]
Obs(s) == [err |-> [b \in 1..Batch(s) |-> Error(At(s, b), Fn)],
           j |-> [b \in 1..Batch(s) |-> <<Jac(At(s, b), Fn, 1), Jac(At(s, b), Fn, 2)>>]]
Init == x = [n \in {"x", "g", "a"} |-> CHOOSE r \in Menu[n] : Len(r) = 1] /\ o = <<>> /\ act = [op |-> "init"]
Do(a, y, p) == x' = y /\ o' = p /\ act' = a
Next ==
  \/ \E n \in {"x", "g", "a"}, r \in {m \in Menu["x"] \cup Menu["g"] \cup Menu["a"] : TRUE} :
       r \in Menu[n] /\ Do([op |-> "set", n |-> n, r |-> r], [x EXCEPT ![n] = r], o)
  \/ Do([op |-> "error"], x, o)
  \/ Do([op |-> "jacobians"], x, o)
  \/ Do([op |-> "fail"], x, o)
  \/ Do([op |-> "copy"], x, x)
  \/ o # <<>> /\ Do([op |-> "swap"], o, x)
  \/ Do([op |-> "to"], x, o)
Spec == Init /\ [][Next]_<<x, o, act>>
View == <<x, o>>
(* derivatives are what the exact change of a quadratic function says: rows with a
   doubled vector entry change by the first and second differences                 *)
Differences == \A b \in 1..Batch(x) : \A r \in 1..2 :
  LET X(s) == [At(x, b) EXCEPT ![1].v = <<@[1] + s>>] IN
  2 * Jac(At(x, b), Fn, 1)[r][1] = Val(X(1), Fn[r]) - Val(X(-1), Fn[r])
(* a quarter turn composes the tangent: rotating twice along the direction negates *)
Turn == \A b \in 1..Batch(x) : LET g == At(x, b)[2] d == Dir(g, 1) IN
  Dir([g EXCEPT !.v = d], 1) = << -g.v[1], -g.v[2] >>
Edge == (IF act.op = "init" THEN PrintT(ToJson([init |-> [x |-> x, o |-> o]])) ELSE TRUE)
        /\ PrintT(ToJson([s |-> [x |-> x, o |-> o], a |-> act', t |-> [x |-> x', o |-> o'], obs |-> Obs(x')]))
=============================================================================
