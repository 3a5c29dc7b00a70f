------------------------------- MODULE Modes -------------------------------
(* Scoped modes and global parameters.
   A thread is a stack of open scopes; the modes it sees are a function of that stack
   alone.  Variables hold rows; a mask scope selects rows of its variables and gives the
   variables back as they were when it was entered.  Parameters are shared by all threads
   and change by set and reset only.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Plain == [on |-> TRUE, silent |-> FALSE, quiet |-> FALSE, lie |-> FALSE, eu |-> FALSE, tan |-> FALSE]
(* what a scope does to the modes around it *)
Under(m, c) ==
  CASE c.k = "group" -> [m EXCEPT !.on = c.on, !.silent = c.silent, !.quiet = c.quiet]
    [] c.k = "hush"  -> [m EXCEPT !.quiet = TRUE]
    [] c.k = "lie"   -> [m EXCEPT !.lie = TRUE]
    [] c.k = "eu"    -> [m EXCEPT !.eu = TRUE]
    [] c.k = "tan"   -> [m EXCEPT !.tan = c.on]
    [] c.k = "mask"  -> m
RECURSIVE Modes(_)
Modes(st) == IF st = <<>> THEN Plain ELSE Under(Modes(SubSeq(st, 1, Len(st) - 1)), st[Len(st)])
Pick(rows, mask) == LET ix == SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : mask[i]) IN [j \in DOMAIN ix |-> rows[ix[j]]]
Set(f, k, v) == [x \in DOMAIN f |-> IF x = k THEN v ELSE f[x]]

(* ---- parameters: name -> value (as printed) ---- *)
ThDefault == [so2_norm_eps_float32 |-> "1e-12", so2_matrix_eps_float32 |-> "1e-05",
  se2_near_zero_eps_float32 |-> "0.03", se2_d_near_zero_eps_float32 |-> "0.1",
  so3_to_quaternion_sqrt_eps_float32 |-> "1e-06",
  so2_norm_eps_float64 |-> "1e-12", so2_matrix_eps_float64 |-> "4e-07",
  se2_near_zero_eps_float64 |-> "1e-06", se2_d_near_zero_eps_float64 |-> "0.001",
  so3_to_quaternion_sqrt_eps_float64 |-> "1e-06", fast_approx_local_jacobians |-> "False"]
LieDefault == [so3_near_pi_eps_float32 |-> "0.01", so3_near_zero_eps_float32 |-> "0.01",
  so3_d_near_zero_eps_float32 |-> "0.2", so3_matrix_eps_float32 |-> "0.0004", so3_quat_eps_float32 |-> "0.0002",
  so3_hat_eps_float32 |-> "5e-06", se3_hat_eps_float32 |-> "5e-06",
  so3_near_pi_eps_float64 |-> "1e-07", so3_near_zero_eps_float64 |-> "0.005",
  so3_d_near_zero_eps_float64 |-> "0.01", so3_matrix_eps_float64 |-> "1e-06", so3_quat_eps_float64 |-> "5e-07",
  so3_hat_eps_float64 |-> "5e-07", se3_hat_eps_float64 |-> "5e-07",
  _allow_passthrough_ops |-> "False", _faster_log_maps |-> "False"]
Start == [thr |-> <<>>, th |-> ThDefault, lie |-> LieDefault]
Fresh(vars) == [st |-> <<>>, vars |-> vars]

RECURSIVE Put(_, _)
Put(p, opts) == IF opts = <<>> THEN p ELSE Put(Set(p, opts[1].n, opts[1].v), Tail(opts))
Valid(p, opts) == \A i \in DOMAIN opts : opts[i].n \in DOMAIN p

(* ---- transitions of one thread x = [st, vars]: returns [x, r] ---- *)
Fits(x, c) == \A i \in DOMAIN c.vs : Len(x.vars[c.vs[i]]) = Len(c.mask)
Enter(x, c) ==
  IF c.k # "mask" THEN [x |-> [x EXCEPT !.st = Append(@, c)], r |-> "ok"]
  ELSE IF ~Fits(x, c) THEN [x |-> x, r |-> "refused"]
  ELSE LET V == {c.vs[i] : i \in DOMAIN c.vs} IN
       [x |-> [st |-> Append(x.st, [k |-> "mask", keep |-> [v \in V |-> x.vars[v]]]),
               vars |-> [v \in DOMAIN x.vars |-> IF v \in V THEN Pick(x.vars[v], c.mask) ELSE x.vars[v]]], r |-> "ok"]
Leave(x) == LET c == x.st[Len(x.st)] IN
  [st |-> SubSeq(x.st, 1, Len(x.st) - 1),
   vars |-> IF c.k = "mask" THEN [v \in DOMAIN x.vars |-> IF v \in DOMAIN c.keep THEN c.keep[v] ELSE x.vars[v]] ELSE x.vars]
RECURSIVE Unwind(_, _)
Unwind(x, n) == IF n = 0 THEN x ELSE Unwind(Leave(x), n - 1)
Update(x, v, rows) == [x EXCEPT !.vars = Set(@, v, rows)]

Step(s, e) ==
  CASE e.op = "start" -> [s |-> [s EXCEPT !.thr = [t \in DOMAIN s.thr \cup {e.t} |-> IF t = e.t THEN Fresh(e.vars) ELSE s.thr[t]]], r |-> "ok"]
    [] e.op = "enter" -> LET r == Enter(s.thr[e.t], e.c) IN [s |-> [s EXCEPT !.thr[e.t] = r.x], r |-> r.r]
    [] e.op = "leave" -> [s |-> [s EXCEPT !.thr[e.t] = Unwind(@, e.n)], r |-> "ok"]
    [] e.op = "update" -> [s |-> [s EXCEPT !.thr[e.t] = Update(@, e.v, e.rows)], r |-> "ok"]
    [] e.op = "prepare" -> [s |-> s, r |-> "ok"]       \* a scope object is made, not entered
    [] e.op = "call"  -> [s |-> s, r |-> e.exp]        \* library code that opens scopes of its own
    [] e.op = "set"   -> IF ~Valid(s[e.lib], e.opts) THEN [s |-> s, r |-> "rejected"]
                         ELSE [s |-> [s EXCEPT ![e.lib] = Put(@, e.opts)], r |-> "ok"]
    [] e.op = "default" -> [s |-> [s EXCEPT ![e.lib] = IF e.lib = "th" THEN ThDefault ELSE LieDefault], r |-> "ok"]

(* ---- what thread t can see ---- *)
Large == {"0.1", "0.2", "0.25"}                        \* tolerances that admit an error of 0.01
Seen(s, t) ==
  LET x == s.thr[t] m == Modes(x.st)
      Err(b) == IF b THEN "ValueError" ELSE "ok" IN
  [strict |-> [g \in {"SO2", "SE2", "SO3", "SE3"} |-> Err(m.on)],   \* an invalid tensor, strict check
   lax |-> [g \in {"SO2", "SE2", "SO3", "SE3"} |->                   \* an invalid tensor, lenient check
              IF m.on THEN <<"normalized", IF m.quiet THEN "no warning" ELSE "warning">>
              ELSE <<"kept", IF m.silent THEN "no warning" ELSE "warning">>],
   hat |-> [g \in {"SO2", "SO3", "SE3"} |-> Err(m.on \/ (m.lie /\ g # "SO2"))],
   quat |-> Err(m.lie),
   lie |-> Err(m.lie),
   eu |-> IF m.eu THEN "raw" ELSE "group",
   tan |-> IF m.tan THEN "tangent" ELSE "plain",
   vars |-> x.vars, th |-> s.th, lp |-> s.lie,
   near |-> [SO2 |-> IF m.on THEN Err(s.th.so2_matrix_eps_float64 \notin Large) ELSE "ok",
             SO3 |-> IF m.lie THEN Err(s.lie.so3_matrix_eps_float64 \notin Large) ELSE "ok"]]
=============================================================================
