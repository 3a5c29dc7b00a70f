----------------------------- MODULE OrderingMC -----------------------------
(* A variable ordering: a duplicate-free sequence of optimisation variables that
   positions, look-ups by name and completeness are functions of.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
Vars == {1, 2, 3}            \* optimisation variables; 4 is not one
VARIABLES ord, act
vars == <<ord, act>>
Rng(s) == {s[i] : i \in DOMAIN s}

\* outcome of appending v: <<tag, new order>>
App(o, v) == IF v \in Rng(o) \/ v \notin Vars THEN <<"ValueError", o>> ELSE <<"ok", Append(o, v)>>
RECURSIVE Ext(_, _)
Ext(o, s) == IF s = <<>> THEN <<"ok", o>>
             ELSE LET r == App(o, Head(s)) IN IF r[1] = "ok" THEN Ext(r[2], Tail(s)) ELSE r
Complete(o) == Len(o) = Cardinality(Vars)

Init == \E o \in {<<>>, <<1, 2, 3>>} :
          ord = o /\ act = [op |-> "init"] /\ PrintT(ToJson([init |-> o]))
DoAppend == \E v \in Vars \cup {4} :
  LET r == App(ord, v) IN ord' = r[2] /\ act' = [op |-> "append", v |-> v, res |-> r[1]]
DoRemove == \E v \in Rng(ord) :
  ord' = SelectSeq(ord, LAMBDA x : x # v) /\ act' = [op |-> "remove", v |-> v, res |-> "ok"]
DoExtend == \E s \in {<<1, 2>>, <<3, 1>>, <<2, 4>>, <<3, 3>>, <<2, 3, 1>>} :
  LET r == Ext(ord, s) IN ord' = r[2] /\ act' = [op |-> "extend", s |-> s, res |-> r[1]]
Next == DoAppend \/ DoRemove \/ DoExtend
Inv == /\ Cardinality(Rng(ord)) = Len(ord) /\ Rng(ord) \subseteq Vars
       /\ (Complete(ord) <=> Rng(ord) = Vars)
Edge == PrintT(ToJson([s |-> ord, a |-> act', t |-> ord']))
View == ord
Spec == Init /\ [][Next]_vars
=============================================================================
