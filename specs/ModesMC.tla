------------------------------ MODULE ModesMC ------------------------------
(* All short histories of scopes in two threads.  The machine here keeps current modes and
   saved values, as an implementation does; theorem Scoped says that this always gives the
   modes that the open scopes alone determine.                                          *)
EXTENDS Modes, Json
CONSTANTS Depth, Threads
VARIABLES s, cur, sav, n, act
G(a, b, c) == [k |-> "group", on |-> a, silent |-> b, quiet |-> c]
M(vs, mask) == [k |-> "mask", vs |-> vs, mask |-> mask]
Scopes == {G(FALSE, FALSE, FALSE), G(FALSE, TRUE, FALSE), G(TRUE, TRUE, TRUE), G(TRUE, FALSE, FALSE),
  [k |-> "hush"], [k |-> "lie"], [k |-> "eu"], [k |-> "tan", on |-> TRUE], [k |-> "tan", on |-> FALSE],
  M(<<"x">>, <<TRUE, FALSE, TRUE>>), M(<<"x", "y">>, <<FALSE, TRUE>>), M(<<"y">>, <<TRUE, FALSE>>)}
Vars0 == [x |-> <<1, 2, 3>>, y |-> <<4, 5>>]
Sets == {[lib |-> "th", opts |-> <<[n |-> "so2_matrix_eps_float64", v |-> "0.1"]>>],
         [lib |-> "th", opts |-> <<[n |-> "so2_norm_eps_float64", v |-> "0.25"], [n |-> "so2_typo", v |-> "0.1"]>>],
         [lib |-> "lie", opts |-> <<[n |-> "so3_matrix_eps_float64", v |-> "0.1"], [n |-> "reset", v |-> "0.1"]>>],
         [lib |-> "lie", opts |-> <<[n |-> "so3_matrix_eps_float64", v |-> "0.2"], [n |-> "so3_quat_eps_float32", v |-> "0.1"]>>]}
Ev == UNION {
   {[op |-> "enter", t |-> t, c |-> c] : c \in Scopes} \cup
   {[op |-> "leave", t |-> t, n |-> k, exc |-> b] : k \in {i \in 1..3 : i <= Len(s.thr[t].st)}, b \in BOOLEAN} \cup
   {[op |-> "update", t |-> t, v |-> v, rows |-> [i \in DOMAIN s.thr[t].vars[v] |-> 10 + n * 10 + i]] : v \in {"x"}}
   : t \in Threads} \cup
   {[op |-> "set", lib |-> o.lib, opts |-> o.opts] : o \in Sets} \cup {[op |-> "default", lib |-> l] : l \in {"th", "lie"}}
Ok(e) == (e.op = "leave" /\ ~e.exc) => e.n = 1
(* the machine *)
RECURSIVE Back(_, _, _)
Back(c, v, k) == IF k = 0 THEN c ELSE Back(v[Len(v)], SubSeq(v, 1, Len(v) - 1), k - 1)
Init == s = [Start EXCEPT !.thr = [t \in Threads |-> Fresh(Vars0)]] /\ cur = [t \in Threads |-> Plain]
        /\ sav = [t \in Threads |-> <<>>] /\ n = 0 /\ act = [op |-> "init"]
Next == n < Depth /\ \E e \in {f \in Ev : Ok(f)} : LET r == TLCEval(Step(s, e)) IN
  /\ s' = r.s /\ n' = n + 1 /\ act' = e @@ [r |-> r.r]
  /\ IF e.op = "enter" /\ r.r = "ok"
     THEN cur' = [cur EXCEPT ![e.t] = Under(@, e.c)] /\ sav' = [sav EXCEPT ![e.t] = Append(@, cur[e.t])]
     ELSE IF e.op = "leave"
     THEN cur' = [cur EXCEPT ![e.t] = Back(@, sav[e.t], e.n)] /\ sav' = [sav EXCEPT ![e.t] = SubSeq(@, 1, Len(@) - e.n)]
     ELSE UNCHANGED <<cur, sav>>
Spec == Init /\ [][Next]_<<s, cur, sav, n, act>>
View == <<s, cur, sav, n>>
Scoped == \A t \in Threads : cur[t] = Modes(s.thr[t].st) /\ (s.thr[t].st = <<>> => cur[t] = Plain)
Local == [][\A t \in Threads : ("t" \notin DOMAIN act' \/ act'.t # t) => s'.thr[t] = s.thr[t]]_<<s, cur, sav, n, act>>
Refused == [][act'.r \in {"refused", "rejected"} => s' = s]_<<s, cur, sav, n, act>>
Params == [][act'.op \notin {"set", "default"} => s'.th = s.th /\ s'.lie = s.lie]_<<s, cur, sav, n, act>>
(* with no mask open every row is there *)
Whole == \A t \in Threads : (\A i \in DOMAIN s.thr[t].st : s.thr[t].st[i].k # "mask") => Len(s.thr[t].vars.x) = 3 /\ Len(s.thr[t].vars.y) = 2
Edge == (IF n = 0 THEN PrintT(ToJson([init |-> [s |-> s, n |-> n]])) ELSE TRUE)
        /\ PrintT(ToJson([s |-> [s |-> s, n |-> n], a |-> act', t |-> [s |-> s', n |-> n'], obs |-> [t \in Threads |-> Seen(s', t)]]))
=============================================================================
