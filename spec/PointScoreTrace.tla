--------------------------- MODULE PointScoreTrace ---------------------------
(* Recorded point scores, between which the map changes. The map's content is the state:
   per resolution, the cells written so far with <<occupancy, disagreement>> in 1/64 (PointScore has the rules). *)
EXTENDS PointScore, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad, m
vars == <<e, l, bad, m>>
Ep == Eps[e]
U == Ep.U
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ m = <<>>
Key(s, c) == <<s, c[1], c[2]>>
At(mm, s, c) == IF Key(s, c) \in DOMAIN mm THEN mm[Key(s, c)] ELSE Ep.prior
\* agreement of a cell with an obstacle, by the estimator in use
Agree(mm, s, c, oie) == IF oie = "occ" THEN At(mm, s, c)[1] ELSE 64 - At(mm, s, c)[2]
Scope(ev) == Covered(ev.r, U) \cup {CellOf(ev.p, U)}
Expected(ev) ==
  LET imp == [c \in Scope(ev) |-> Agree(m, ev.s, c, ev.oie)] IN
   CASE ev.rule = "obst" -> Obstacle(ev.p, imp, U)
     [] ev.rule = "max" -> Maximum(ev.r, imp, U)
     [] ev.rule = "mean" -> Mean(ev.r, imp, U)
     [] ev.rule = "overlap" -> Overlap(ev.r, imp, U)
     [] ev.rule = "window" ->
          LET W == Window(ev.p, ev.k, U) IN
          Windowed(ev.p, ev.k, [c \in W |-> At(m, ev.s, c)[1]], [c \in W |-> 64 - At(m, ev.s, c)[2]], ev.th, U)
\* res in 1/4096, rounded
Near(res, f) == 2 * Abs(res * f[2] - 64 * f[1]) <= f[2] + 1
Score(ev) == IF ~Near(ev.res, Expected(ev)) THEN "the score is not the rule's" ELSE IF ~ev.pure THEN "scoring changed the map" ELSE ""
\* hit counting cells: content is <<hits, sum x, sum y, tries>>; the score tells the squared distance of the best cell
GAt(c) == IF Key(0, c) \in DOMAIN m THEN m[Key(0, c)] ELSE <<0, 0, 0, 0>>
GFull(ev) == {c \in Window(ev.p, ev.k, U) : LET g == GAt(c) IN g[4] > 0 /\ 64 * g[1] >= ev.th * g[4]}
\* squared distances times hits^2
GD2(p, g) == (g[1] * p[1] - g[2]) * (g[1] * p[1] - g[2]) + (g[1] * p[2] - g[3]) * (g[1] * p[2] - g[3])
GNear(ev, c) == LET g == GAt(c) IN 10 * Abs(ev.d2 * g[1] * g[1] - 16 * GD2(ev.p, g)) <= 10 * g[1] * g[1]
GScore(ev) ==
  LET F == GFull(ev) IN
  IF F = {} THEN (IF ev.none THEN "" ELSE "a score without an occupied cell in the window")
  ELSE IF ev.none THEN "the window's occupied cells were not scored"
  ELSE IF \E c \in F : LET g == GAt(c) IN 10 * (ev.d2 * g[1] * g[1] - 16 * GD2(ev.p, g)) > 10 * g[1] * g[1] THEN "a nearer obstacle in the window was overlooked"
  ELSE IF ~\E c \in F : GNear(ev, c) THEN "the score is that of no cell of the window"
  ELSE ""
GUpd(ev) == LET g == GAt(ev.c) IN
  IF ev.occ THEN <<g[1] + 1, g[2] + ev.p[1], g[3] + ev.p[2], g[4] + 1>> ELSE <<g[1], g[2], g[3], g[4] + 1>>
Verdict(ev) ==
   CASE ev.op = "set" -> ""
     [] ev.op = "gset" -> ""
     [] ev.op = "score" -> Score(ev)
     [] ev.op = "gscore" -> GScore(ev)
Next2(ev) ==
   CASE ev.op = "set" -> [x \in DOMAIN m \cup {Key(ev.s, ev.c)} |-> IF x = Key(ev.s, ev.c) THEN ev.v ELSE m[x]]
     [] ev.op = "gset" -> [x \in DOMAIN m \cup {Key(0, ev.c)} |-> IF x = Key(0, ev.c) THEN GUpd(ev) ELSE m[x]]
     [] OTHER -> m
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1]) /\ m' = Next2(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
