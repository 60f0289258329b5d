----------------------------- MODULE AreaEstMC -----------------------------
(* The estimate is well-formed and does not change under the square's symmetries. *)
EXTENDS AreaEst
CONSTANTS S, M
VARIABLES a, b, occ
Init == a \in (-M .. S + M) \X (-M .. S + M) /\ b \in (-M .. S + M) \X (-M .. S + M) /\ occ \in BOOLEAN
Spec == Init /\ [][UNCHANGED <<a, b, occ>>]_<<a, b, occ>>
E0 == Estimate(a, b, S, occ, 1)
Turn(p) == <<S - p[2], p[1]>>
Flip(p) == <<S - p[1], p[2]>>
Same(x, y) == /\ x.ok = y.ok
              /\ x.ok => x.occ = y.occ /\ x.share[1] * y.share[2] = y.share[1] * x.share[2] /\ (~x.occ => x.q = y.q)
InRange == E0.ok => 0 <= E0.share[1] /\ E0.share[1] <= E0.share[2] /\ E0.share[2] > 0
Symmetric == /\ Same(E0, Estimate(Turn(a), Turn(b), S, occ, 1))
             /\ Same(E0, Estimate(Flip(a), Flip(b), S, occ, 1))
\* the side of a free cell's quality cannot exceed a half of it
FreeHalf == (E0.ok /\ ~E0.occ /\ E0.q = "qe") => 2 * E0.share[1] <= E0.share[2]
\* an obstacle seen from the other side takes the complement
Opposite == LET c == <<2 * b[1] - a[1], 2 * b[2] - a[2]>>  s == Beyond(a, b, S)  t == Beyond(c, b, S) IN
  a # b => s[1] * t[2] + t[1] * s[2] = s[2] * t[2]
\* an occupied estimate only when the beam comes from outside
FromOutside == (E0.ok /\ occ /\ E0.occ) => ~InSq(a, S) \/ OnBorder(a, S)
Touching == E0.ok => (BeamSpots(Moved(a, b, S, 1)[1], Moved(a, b, S, 1)[2], S) > 0 \/ InSq(a, S))
=============================================================================
