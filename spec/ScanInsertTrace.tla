--------------------------- MODULE ScanInsertTrace ---------------------------
(* Recorded insertions. ev.beams: a, b, occ, w (quality rule: 1/w of the scan's quality; w in 1/16 units when frac);
   ev.obs in the order they were made: n (beam), c (cell), occ, p, q (in 1/4096), ql (in 1/4096). *)
EXTENDS ScanInsert, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
U == Ep.U
NaN == -1
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
\* the estimator of the harness: answers by cell and occupancy, in 1/64
EstNo(c) == (c[1] + c[2]) % 7 = 3
EstP(c, occ) == IF EstNo(c) THEN NaN ELSE ((5 * c[1] + 3 * c[2] + (IF occ THEN 7 ELSE 0)) % 16) * 4 + 1
EstQ(c, occ) == IF EstNo(c) THEN NaN ELSE ((c[1] + 2 * c[2] + (IF occ THEN 3 ELSE 0)) % 8) * 8 + 2
Up(v) == IF v = NaN THEN NaN ELSE 64 * v
BlurredP(ev, bm, o) ==
  LET base == EstP(CellOf(bm.b, U), bm.occ)
      d2 == Dist2(o.c, CellOf(bm.b, U))
      num == HoleNum(ev.blur, bm.a, bm.b) IN
  IF base = NaN THEN o.p = NaN
  ELSE IF ev.blur > 0 THEN Abs(o.p * num - 64 * base * (num - 16 * d2)) <= num
  ELSE Abs(o.p - 64 * base + (64 * base * d2 * 1024) \div (num \div 4)) <= 4
ObsFault(ev, o) ==
  LET bm == ev.beams[o.n]  last == o.c = CellOf(bm.b, U) IN
  IF Abs(o.ql * bm.w - ev.q * 64 * bm.wu) > bm.w THEN "the quality is not the scan's times the rule's"
  ELSE IF last THEN
    IF o.occ # bm.occ THEN "the beam's end is marked wrongly"
    ELSE IF o.p # Up(EstP(o.c, bm.occ)) \/ o.q # Up(EstQ(o.c, bm.occ)) THEN "the end's occupancy is not the estimated one" ELSE ""
  ELSE IF Blurs(ev.blur, bm.occ, bm.a, bm.b, o.c, U) THEN
    IF ~o.occ \/ ~BlurredP(ev, bm, o) \/ o.q # Up(EstQ(o.c, FALSE)) THEN "the cell near the obstacle is not blurred as it should be" ELSE ""
  ELSE IF o.occ THEN "a cell before the obstacle is marked occupied"
  ELSE IF o.p # Up(EstP(o.c, FALSE)) \/ o.q # Up(EstQ(o.c, FALSE)) THEN "a free cell's occupancy is not the estimated one"
  ELSE ""
Pick(S) == CHOOSE x \in S : TRUE
ScanFault(ev) ==
  LET used == Used(ev.beams, ev.margin, ev.r2x4)
      of(i) == {k \in DOMAIN ev.obs : ev.obs[k].n = i}
      cellsOf(i) == {ev.obs[k].c : k \in of(i)}
      bads == {i \in used : CellsFault(ev.beams[i].a, ev.beams[i].b, cellsOf(i), U) # ""}
      badobs == {k \in DOMAIN ev.obs : ObsFault(ev, ev.obs[k]) # ""} IN
  IF ev.other THEN "something else was done to the map"
  ELSE IF \E k \in DOMAIN ev.obs : ev.obs[k].n \notin used THEN "an observation of an ignored beam"
  ELSE IF bads # {} THEN CellsFault(ev.beams[Pick(bads)].a, ev.beams[Pick(bads)].b, cellsOf(Pick(bads)), U)
  ELSE IF \E i \in used : Cardinality(cellsOf(i)) # Cardinality(of(i)) THEN "a cell got two observations of a beam"
  ELSE IF badobs # {} THEN ObsFault(ev, ev.obs[Pick(badobs)])
  ELSE IF \E j, k \in DOMAIN ev.obs : j < k /\ ev.obs[j].c = ev.obs[k].c /\ ev.obs[j].n > ev.obs[k].n THEN "a later beam was inserted earlier"
  ELSE IF ~ev.same THEN "another map was returned"
  ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = ScanFault(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
