-------------------------------- MODULE DriftMC --------------------------------
(* The detector over every short scan along a few directions and every scoring *)
(* of the places along the drift.                                              *)
EXTENDS Drift
CONSTANTS N, S
Steps == {<<1, 0>>, <<-2, 0>>, <<1, 2>>, <<-1, -2>>, <<-1, 2>>}
VARIABLES pts, scores, i, best, pc
vars == <<pts, scores, i, best, pc>>
Vals == (0 .. S) \cup {NaN}
Init == /\ pts = <<>> /\ scores \in [1 .. 4 -> 0 .. S] \cup {[k \in 1 .. 4 |-> NaN]} /\ i = 1 /\ best = 1 /\ pc = "scan"
Point == /\ pc = "scan" /\ Len(pts) < N
         /\ \E d \in Steps : pts' = IF pts = <<>> THEN <<d>> ELSE Append(pts, <<pts[Len(pts)][1] + d[1], pts[Len(pts)][2] + d[2]>>)
         /\ UNCHANGED <<scores, i, best, pc>>
Judge == /\ pc = "scan" /\ pc' = (IF Ambiguous(pts) THEN "search" ELSE "end") /\ UNCHANGED <<pts, scores, i, best>>
Search == /\ pc = "search"
          /\ IF i < 4 THEN i' = i + 1 /\ best' = (IF Better(scores[i + 1], scores[best]) THEN i + 1 ELSE best) /\ pc' = pc
             ELSE pc' = "end" /\ UNCHANGED <<i, best>>
          /\ UNCHANGED <<pts, scores>>
Next == Point \/ Judge \/ Search
Spec == Init /\ [][Next]_vars
Classified == \A k \in DOMAIN Classes(pts) : Classes(pts)[k] \in 0 .. 19
\* turning a scan's order around leaves the classes
Rev(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
Undirected == Classes(Rev(pts)) = Rev(Classes(pts))
\* what is left has no point that follows its neighbour in the main direction
RestIsOther == Len(Rest(pts)) <= (IF pts = <<>> THEN 0 ELSE Len(pts) - 1 - Top(Classes(pts)))
DriftStays == pc = "end" /\ ~Ambiguous(pts) => best = 1
BestPlace == pc = "end" /\ Ambiguous(pts) => /\ best = Climb(scores, 1, 1)
                                             /\ \A k \in 1 .. 4 : ~Better(scores[k], scores[best])
                                             /\ (scores[best] = scores[1] => best = 1)
TwoPoints == Len(pts) = 2 => Ambiguous(pts)
=============================================================================
