------------------------------ MODULE MatcherMC ------------------------------
(* Keeping the best of the poses tested so far: any enumerator, any scores.   *)
EXTENDS Integers, Sequences
CONSTANTS Depth, Scores
NaN == -1
VARIABLES seen, best, told
vars == <<seen, best, told>>
Better(a, b) == a # NaN /\ b # NaN /\ a > b
Init == \E s \in Scores \cup {NaN} : seen = <<s>> /\ best = 1 /\ told = <<1>>
Next == /\ Len(seen) < Depth
        /\ \E s \in Scores \cup {NaN} :
             /\ seen' = Append(seen, s)
             /\ best' = IF Better(s, seen[best]) THEN Len(seen) + 1 ELSE best
             /\ told' = IF Better(s, seen[best]) THEN Append(told, Len(seen) + 1) ELSE told
Spec == Init /\ [][Next]_vars
FirstMaximum == seen[1] # NaN =>
   /\ \A i \in DOMAIN seen : seen[i] # NaN => seen[i] <= seen[best]
   /\ \A i \in 1 .. best - 1 : seen[i] # NaN => seen[i] < seen[best]
NeverWorse == seen[1] # NaN => seen[best] >= seen[1]
Rising == \A i \in 1 .. Len(told) - 1 : told[i] < told[i + 1] /\ Better(seen[told[i + 1]], seen[told[i]])
LastTold == told[Len(told)] = best
=============================================================================
