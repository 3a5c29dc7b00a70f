----------------------------- MODULE ModesTrace -----------------------------
(* Judges recorded histories of scoped modes and parameters.                      *)
EXTENDS Modes, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead
Report(b) == IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
Fields == {"strict", "lax", "hat", "quat", "lie", "eu", "tan", "vars", "th", "lp", "near"}
Init == l = 1 /\ s = Start /\ dead = FALSE
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.op = "fresh" THEN s' = Start /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<s, dead>>
     ELSE IF e.op = "look"
     THEN LET want == Seen(s, e.t)
              b == {f \in Fields : f \in DOMAIN e.see /\ e.see[f] # want[f]} IN
          Report({"sees_" \o f : f \in b}) /\ UNCHANGED s /\ dead' = (b # {})
     ELSE LET r == TLCEval(Step(s, e)) b == IF r.r = e.r THEN {} ELSE {e.op \o "_outcome"} IN
          Report(b) /\ s' = r.s /\ dead' = (b # {})
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_<<l, s, dead>>
=============================================================================
