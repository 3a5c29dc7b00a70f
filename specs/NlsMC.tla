------------------------------- MODULE NlsMC -------------------------------
(* The optimizer loop over an arbitrary environment: any error for every active
   element at every iteration, any set of rejected steps, solver failures.      *)
EXTENDS Nls, TLC
CONSTANTS Elems, Errs, K1, K2
P == [abs |-> <<1, 2>>, rel |-> <<1, 2>>]
VARIABLES els, first, it, n1, phase, tries, hist, done
vars == <<els, first, it, n1, phase, tries, hist, done>>
E1(s) == [i \in Elems |-> s[i]]

Init == /\ \E f \in [Elems -> Errs] :
             /\ els = [i \in Elems |-> NewEl(f[i])]
             /\ hist = << f >>
        /\ first = <<>> /\ it = 0 /\ n1 = 0 /\ phase = 1 /\ tries = 0 /\ done = FALSE

Budget == IF phase = 1 THEN K1 ELSE K2
Running == ~done /\ it < Budget /\ (it = 0 \/ ~AllConv(els)) /\ \A i \in Elems : els[i].st # "FAIL"

Fail == /\ Running
        /\ els' = FailAll(els) /\ tries' = 0
        /\ UNCHANGED <<first, it, n1, phase, hist, done>>
Retry == /\ Running /\ tries < 2
         /\ tries' = tries + 1
         /\ UNCHANGED <<els, first, it, n1, phase, hist, done>>
Iterate ==
  /\ Running
  /\ \E new \in [Elems -> Errs], R \in SUBSET Elems :
       LET all == R = Elems IN
       /\ all => tries = 2
       /\ \A i \in Elems : (els[i].conv \/ i \in R) => new[i] = els[i].e
       /\ els' = [i \in Elems |-> IterEl(P, els[i], it, Len(hist) + 1, new[i], i \in R, all)]
       /\ hist' = Append(hist, new)
  /\ it' = it + 1 /\ tries' = 0
  /\ UNCHANGED <<first, n1, phase, done>>
Second == /\ ~done /\ ~Running /\ phase = 1 /\ K2 > 0
          /\ first' = Stop(els) /\ n1' = it
          /\ els' = [i \in Elems |-> [NewEl(els[i].e) EXCEPT !.bc = Len(hist)]]
          /\ phase' = 2 /\ it' = 0 /\ tries' = 0
          /\ UNCHANGED <<hist, done>>
Finish == /\ ~done /\ ~Running /\ (phase = 2 \/ K2 = 0)
          /\ els' = IF phase = 2 THEN Merge(first, Stop(els), n1) ELSE Stop(els)
          /\ done' = TRUE
          /\ UNCHANGED <<first, it, n1, phase, tries, hist>>
Next == Fail \/ Retry \/ Iterate \/ Second \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Fail \/ Iterate \/ Second \/ Finish)

Col(i) == [k \in DOMAIN hist |-> hist[k][i]]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the reported best error, iteration and solution are the history's first minimum *)
BestOK == done => \A i \in Elems :
  LET m == Min({hist[k][i] : k \in DOMAIN hist})
      f == Min({k \in DOMAIN hist : hist[k][i] = m})
  IN els[i].be = m /\ els[i].bc = f /\ els[i].bi = IF f = 1 THEN 0 ELSE f - 2
HistOK == Len(hist) = 1 + it + n1 /\ Len(hist) <= 1 + K1 + K2
(* a converged element keeps its error until the loop ends *)
Frozen == [][\A i \in Elems : els[i].conv /\ phase' = phase => hist'[Len(hist')][i] = els[i].e]_vars
(* an element reported as converged has an iteration at which a tolerance was met *)
ConvOK == done => \A i \in Elems :
  els[i].st = "CONVERGED" =>
    /\ CI(els[i]) \in 1..Len(hist) - 1
    /\ Within(P, hist[CI(els[i]) + 1][i], hist[CI(els[i])][i])
MaxOK == done => \A i \in Elems : els[i].st = "MAX_ITERATIONS" => CI(els[i]) = -1 /\ Len(hist) = 1 + K1 + K2
StatusOK == done => \A i \in Elems : els[i].st \in {"CONVERGED", "MAX_ITERATIONS", "FAIL"}
Ends == <>done
=============================================================================
