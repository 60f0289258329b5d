------------------------------ MODULE DriftTrace ------------------------------
(* Every matching reports the scan's points (in 1/8 m), the wrapped matcher's  *)
(* score, all the scores asked for (places relative to the wrapped matcher's   *)
(* result in 1e-5) and the result.                                             *)
EXTENDS Drift, TLC, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES m, asks, e, l, bad
vars == <<m, asks, e, l, bad>>
Ep == Eps[e]
\* cosines of the classes' middles, 4.5 + 9 c degrees, in 1e-5
Cos == <<99692, 97237, 92388, 85264, 76041, 64945, 52250, 38268, 23345, 7846,
         -7846, -23345, -38268, -52250, -64945, -76041, -85264, -92388, -97237, -99692>>
Sin == [c \in 1 .. 20 |-> IF c <= 10 THEN Cos[11 - c] ELSE Cos[c - 10]]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == \A i \in 1 .. 3 : Abs(a[i] - b[i]) <= 2
Off(c, j) == LET r == -25 + 10 * (j - 1) IN <<(r * Cos[c + 1]) \div 100, (r * Sin[c + 1]) \div 100, 0>>
Flat(pts) == [i \in 1 .. 2 * Len(pts) |-> pts[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
Zero == <<0, 0, 0>>
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ m = [pts |-> <<>>, s |-> 0] /\ asks = {}
Scores(p) == {a.s : a \in {x \in asks : x.pts = Flat(Rest(m.pts)) /\ Near(x.p, p)}}
Result(ev) ==
   IF ev.calls # 1 THEN "the wrapped matcher is not asked once"
   ELSE IF ~Ambiguous(m.pts)
   THEN IF ev.p # Zero \/ ev.s # m.s THEN "the wrapped matcher's result does not stand" ELSE ""
   ELSE LET c == MainClass(m.pts)
            places == <<Zero>> \o [j \in 1 .. 6 |-> Off(c, j)]
        IN IF \E i \in 1 .. 7 : Cardinality(Scores(places[i])) # 1 THEN "a place along the drift is not scored with the rest of the scan"
           ELSE LET s == [i \in 1 .. 7 |-> CHOOSE v \in Scores(places[i]) : TRUE]
                    best == Climb(s, 1, 1)
                IN IF ~ \E i \in 1 .. 7 : Near(ev.p, places[i]) /\ s[i] = s[best] /\ (s[1] = s[best] => i = 1) THEN "not the best place along the drift"
                   ELSE IF ev.s # ev.again THEN "the score is not that of the returned pose" ELSE ""
Step(ev) ==
   CASE ev.op = "reset" -> bad' = (IF ev.n = 1 THEN "" ELSE "a reset is not passed on") /\ UNCHANGED <<m, asks>>
     [] ev.op = "match" -> m' = [pts |-> ev.pts, s |-> ev.s] /\ asks' = {} /\ bad' = ""
     [] ev.op = "ask" -> asks' = asks \cup {[pts |-> ev.pts, p |-> ev.p, s |-> ev.s]} /\ bad' = "" /\ UNCHANGED m
     [] ev.op = "ret" -> bad' = Result(ev) /\ UNCHANGED <<m, asks>>
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
