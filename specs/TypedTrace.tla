----------------------------- MODULE TypedTrace -----------------------------
(* Judges recorded histories of typed group tensors.                              *)
EXTENDS Typed, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead
Differs(a, b) == {"slot_" \o k : k \in UNION {
  {f \in DOMAIN a[i] \cup DOMAIN b[i] : f \notin DOMAIN a[i] \/ f \notin DOMAIN b[i] \/ a[i][f] # b[i][f]} : i \in DOMAIN a}}
NearV(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : Abs(r[i] - q[i]) <= t
NearM(r, q, t) == DOMAIN r = DOMAIN q /\ \A i \in DOMAIN r : NearV(r[i], q[i], t)
Init == l = 1 /\ s = Empty(1) /\ dead = FALSE
Report(b) == IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN s' = Empty(e.n) /\ dead' = FALSE
     ELSE IF e.op = "same" THEN UNCHANGED <<s, dead>> /\ Report(IF NearM(e.x, e.y, e.tol) THEN {} ELSE {e.what})
     ELSE IF e.op = "outcome" THEN UNCHANGED <<s, dead>> /\ Report(IF e.res = e.exp THEN {} ELSE {e.what})
     ELSE IF dead THEN UNCHANGED <<s, dead>>
     ELSE LET r == TLCEval(Step(s, e))
              b == TLCEval((IF r.r = e.r THEN {} ELSE {e.op \o "_outcome"})
                           \cup {e.op \o "_" \o d : d \in Differs(Observe(r.s), e.post)}) IN
       /\ Report(b)
       /\ s' = Tidy(r.s) /\ dead' = (b # {})
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_<<l, s, dead>>
=============================================================================
