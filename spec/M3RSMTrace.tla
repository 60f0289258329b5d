----------------------------- MODULE M3RSMTrace -----------------------------
(* Recorded multi-resolution matchings: with made-up landscapes ("match", "engine") and with real maps
   and scans ("real", scores of all lattice poses listed). *)
EXTENDS M3RSM, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
\* the landscape of the harness
Land(f, i, j, r) == (f[1] * i + f[2] * j + f[3] * r + f[4] * i * j + f[5]) % f[6]
Common(ev) ==
  IF ~ev.restored THEN "the map's resolution is not what it was"
  ELSE IF ev.starts # 1 \/ ev.ends # 1 THEN "the observer was not told once about start and end"
  ELSE IF ~ev.endok THEN "the observer was told another result" ELSE ""
CandsOf(ev) == Candidates(Halvings(ev.x, ev.step), Halvings(ev.y, ev.step))
Match(ev) ==
  IF ~ev.known THEN "a matching with scores has no score"
  ELSE LET f == Fault(CandsOf(ev), Rotations(ev.sector, ev.rstep), LAMBDA i, j, r : Land(ev.f, i, j, r), ev.d, ev.s, 0) IN
  IF f # "" THEN f ELSE Common(ev)
\* the table lists scores by rotation, i, j; the lattice is [-nx, nx] x [-ny, ny]
Table(ev, i, j, r) ==
  LET nx == 2 ^ Halvings(ev.x, ev.step)  ny == 2 ^ Halvings(ev.y, ev.step)  nr == ev.sector \div (2 * ev.rstep) IN
  ev.table[((r + nr) * (2 * nx + 1) + i + nx) * (2 * ny + 1) + j + ny + 1]
Real(ev) ==
  IF ~ev.known THEN (IF ev.none /\ ev.d = <<0, 0, 0>> THEN Common(ev) ELSE "a usable scan was not matched")
  ELSE IF ev.none THEN "a scan without usable points was matched"
  ELSE LET f == Fault(CandsOf(ev), Rotations(ev.sector, ev.rstep), LAMBDA i, j, r : Table(ev, i, j, r), ev.d, ev.s, 1) IN
  IF f # "" THEN f ELSE Common(ev)
\* candidates in the order the engine gave them: no better one later, none of those near the best missing
Engine(ev) ==
  LET C == CandsOf(ev)  R == Rotations(ev.sector, ev.rstep)
      sc(q, c, r) == Land(ev.fs[q], c[1], c[2], r)
      all == {<<q, c[1], c[2], r>> : q \in DOMAIN ev.fs, c \in C, r \in R}
      got == {ev.got[k].at : k \in DOMAIN ev.got}
      best == Max({sc(x[1], <<x[2], x[3]>>, x[4]) : x \in all}) IN
  IF \E k \in DOMAIN ev.got : ev.got[k].at \notin all THEN "not a candidate"
  ELSE IF \E k \in DOMAIN ev.got : LET x == ev.got[k].at IN sc(x[1], <<x[2], x[3]>>, x[4]) # ev.got[k].s THEN "the score is not that of the pose"
  ELSE IF \E k \in 1 .. Len(ev.got) - 1 : ev.got[k].s < ev.got[k + 1].s THEN "a better candidate came later"
  ELSE IF \E x \in all : sc(x[1], <<x[2], x[3]>>, x[4]) >= best - ev.diff /\ x \notin got THEN "a candidate near the best never came"
  ELSE IF ~ev.restored THEN "the map's resolution is not what it was"
  ELSE ""
Verdict(ev) == CASE ev.op = "match" -> Match(ev) [] ev.op = "real" -> Real(ev) [] ev.op = "engine" -> Engine(ev) [] ev.op = "set" -> ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
