--------------------------- MODULE RegistryTrace ---------------------------
(* Accepts a recorded history of a real Objective iff every call's outcome and
   everything the API shows afterwards is what Registry prescribes.           *)
EXTENDS Registry, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, st, live

Fails(e, want, res) ==
  {k \in {"outcome"} : e.res # res} \cup
  {k \in DOMAIN want : e.obs[k] # want[k]}

Init == l = 1 /\ c = [vars |-> <<>>, ws |-> <<>>, cfs |-> <<>>] /\ st = <<>> /\ live = FALSE

Step(e) ==
  IF e.op = "reset" THEN
     /\ c' = e.cat /\ st' = Empty(e.cat) /\ live' = TRUE
  ELSE IF ~live THEN UNCHANGED <<c, st, live>>
  ELSE LET r == IF e.op = "add" THEN Add(c, st, e.f) ELSE Erase(c, st, e.name)
           bad == Fails(e, Obs(c, r[2]), r[1])
       IN /\ c' = c /\ st' = r[2]
          /\ IF bad = {} THEN live' = TRUE
             ELSE /\ live' = FALSE
                  /\ PrintT(ToJson([line |-> l, clauses |-> SetToSeq(bad),
                                    want |-> Obs(c, r[2]), res |-> r[1]]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_<<l, c, st, live>>
TypeOK == live => RegistryExact(c, st)
==============================================================================
