----------------------------- MODULE RectTrace -----------------------------
EXTENDS Rects, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
Img(s) == {s[i] : i \in DOMAIN s}
IsPoint(r) == r[1] = r[2] /\ r[3] = r[4]
Inter(ev) ==
  IF (IF Disjoint(ev.r, ev.q) THEN Area(ev.i) # 0 ELSE ev.i # Meet(ev.r, ev.q)) THEN "the intersection is not the common points"
  ELSE IF ev.eq # (ev.r = ev.q) THEN "equality is wrong"
  ELSE IF ev.ov = -1 THEN ""
  ELSE IF Area(ev.r) > 0 THEN IF ev.ov * 64 = CommonArea(ev.r, ev.q) THEN "" ELSE "the overlap is not the common share"
  ELSE IF ev.ov = (IF Disjoint(ev.r, ev.q) THEN 0 ELSE 1) THEN "" ELSE "the overlap of a point is wrong"
Parts(ev) ==
  IF Img(ev.v) # {Lower(ev.r), Upper(ev.r)} \/ Len(ev.v) # 2 THEN "the vertical split does not tile"
  ELSE IF Img(ev.h) # {Lefter(ev.r), Righter(ev.r)} \/ Len(ev.h) # 2 THEN "the horizontal split does not tile"
  ELSE IF Img(ev.f) # Img(Quarters(ev.r)) \/ Len(ev.f) # 4 THEN "the quarters do not tile"
  ELSE IF Img(ev.c) # CornersOf(ev.r) \/ Len(ev.c) # 4 THEN "wrong corners"
  ELSE ""
Meas(ev) ==
  LET r == ev.r  w == r[2] - r[1]  h == r[4] - r[3]  x == ev.p[1]  y == ev.p[2] IN
  IF ev.b # r THEN "wrong bounds"
  ELSE IF ev.v # h \/ ev.h # w \/ ev.sq # (w = h) \/ (w = h /\ ev.side # w) \/ ev.area * 64 # w * h THEN "wrong side lengths or area"
  ELSE IF ev.line # ((w = 0) # (h = 0)) \/ ev.point # (w = 0 /\ h = 0) THEN "wrong shape"
  ELSE IF ev.c # <<MidX(r), MidY(r)>> THEN "wrong centre"
  ELSE IF ev.mv # <<x - w \div 2, x + w \div 2, y - h \div 2, y + h \div 2>> THEN "the moved rectangle is wrong"
  ELSE IF ev.sh # <<r[1] + w \div 4, r[2] - w \div 4, r[3] + h \div 4, r[4] - h \div 4>> THEN "the shrunk rectangle is wrong"
  ELSE IF ev.in # Has(r, ev.p) THEN "containment is wrong"
  ELSE ""
K == 64
RayV(ev) ==
  LET ps == {ev.is[i].p : i \in DOMAIN ev.is}
      all == Crossings(ev.r, ev.a, ev.b, K)
      due == IF ev.seg THEN {p \in all : Within(ev.a, ev.b, p, K)} ELSE all IN
  IF ps # due THEN "the intersections are not where the line meets the sides"
  ELSE IF Cardinality(ps) # Len(ev.is) THEN "an intersection is reported twice"
  ELSE IF \E i \in DOMAIN ev.is : ~OnSide(ev.r, ev.is[i].p, K, ev.is[i].loc) THEN "an intersection names a side it is not on"
  ELSE IF \E i \in DOMAIN ev.is : ev.is[i].hor # (ev.is[i].loc \in {0, 2}) THEN "wrong orientation of a side"
  ELSE ""
Edge(ev) ==
  LET sides == {loc \in 0 .. 3 : OnSide(ev.r, ev.p, 1, loc)}
      s == ev.s  v == s[1] = s[3]  h == s[2] = s[4] IN
  IF ev.has # (sides # {}) THEN "wrong side of a point"
  ELSE IF ev.has /\ ~\E loc \in sides : OnSide(ev.r, <<ev.e[1], ev.e[2]>>, 1, loc) /\ OnSide(ev.r, <<ev.e[3], ev.e[4]>>, 1, loc) THEN "another side"
  ELSE IF ev.hor # h \/ ev.ver # v \/ ev.pt # (h /\ v) THEN "wrong direction of a segment"
  ELSE IF ev.len * 64 # (s[1] - s[3]) * (s[1] - s[3]) + (s[2] - s[4]) * (s[2] - s[4]) THEN "wrong length"
  ELSE IF ~(h /\ v) /\ ev.on # ((v /\ s[1] \in {ev.r[1], ev.r[2]}) \/ (h /\ s[2] \in {ev.r[3], ev.r[4]})) THEN "on-side test is wrong"
  ELSE ""
Verdict(ev) == CASE ev.op = "inter" -> Inter(ev) [] ev.op = "parts" -> Parts(ev) [] ev.op = "meas" -> Meas(ev)
                 [] ev.op = "ray" -> RayV(ev) [] ev.op = "edge" -> Edge(ev)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
