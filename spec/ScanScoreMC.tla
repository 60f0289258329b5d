----------------------------- MODULE ScanScoreMC -----------------------------
(* All scans of up to N points on a small lattice: laws of filtering, weighting and scoring. *)
EXTENDS ScanScore
CONSTANTS N, R
VARIABLES pts, prob, skip, max2, h
Pt == [a : -R .. R, b : 0 .. R, occ : BOOLEAN, f : {4}]
Heads == {<<25, 0>>, <<0, 25>>, <<15, 20>>}
Init == /\ pts \in UNION {[1 .. n -> Pt] : n \in 0 .. N}
        /\ prob \in [1 .. N -> {0, 40, 64}]
        /\ skip \in 0 .. 2 /\ max2 \in {-1, 90} /\ h \in Heads
Next == UNCHANGED <<pts, prob, skip, max2, h>>
Spec == Init /\ [][Next]_<<pts, prob, skip, max2, h>>
Ext == [any |-> FALSE, x |-> -1, y |-> -1, w |-> 2, h |-> 2]
K == Kept(pts, <<1, 1>>, h, skip, max2, Ext, 40)
KP == [i \in DOMAIN K |-> pts[K[i]]]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Sc(w, q) == Score(KP, w, q)
Eq(a, b) == a[1] * b[2] = b[1] * a[2]
PR == [i \in DOMAIN K |-> prob[K[i]]]
InRange(s) == s[2] = 0 \/ (0 <= s[1] /\ s[1] <= 256 * s[2])
Scores01 == InRange(Sc(Even(KP), PR)) /\ InRange(Sc(Reciprocal(KP), PR))
UnknownIffEmpty == (Sc(Even(KP), PR)[2] = 0) <=> (K = <<>>)
Reorder == Eq(Score(Rev(KP), Even(KP), Rev(PR)), Sc(Even(KP), PR))
KeptInOrder == \A i, j \in DOMAIN K : i < j => K[i] < K[j]
AllUsed == (skip <= 1 /\ max2 = -1) =>
  {K[i] : i \in DOMAIN K} = {i \in DOMAIN pts : pts[i].occ /\ InMap(Ext, CellOf(World(pts[i], <<1, 1>>, h), 40))}
\* turning keeps lengths; one heading after another is turning by both
Turn == \A i \in DOMAIN pts : LET q == World(pts[i], <<0, 0>>, h) IN q[1] * q[1] + q[2] * q[2] = Sq(pts[i])
\* the direction of a pair does not depend on which point comes first
Directions == \A i, j \in DOMAIN pts : Bucket(pts[i], pts[j]) = Bucket(pts[j], pts[i]) /\ Bucket(pts[i], pts[j]) \in 0 .. 19
=============================================================================
