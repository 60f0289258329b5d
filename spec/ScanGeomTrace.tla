---------------------------- MODULE ScanGeomTrace ----------------------------
(* Recorded conversions of scans, sine/cosine answers and histograms against ScanGeom. *)
EXTENDS ScanGeom, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
\* --- single points: every accessor and conversion
Point(ev) ==
  LET p == ev.p  d == ev.d IN
  IF ev.xy # Full(p) THEN "a point is not where it was made"
  ELSE IF ev.polar # Full(p) THEN "range and bearing do not lead to the point"
  ELSE IF ev.sq # p[1] * p[1] + p[2] * p[2] THEN "the range is not the distance"
  ELSE IF ev.occ # <<ev.o, ev.o, ev.o, ev.o>> THEN "a conversion changed what the point is"
  ELSE IF ev.tocart # Full(p) \/ ev.topol # Full(p) THEN "a conversion moved the point"
  ELSE IF ev.moved # Plus(Full(p), d) \/ ev.topold # Plus(Full(p), d) THEN "a shift is not added to the point"
  ELSE IF ev.longer # <<25 * (ev.m + 1) * p[1], 25 * (ev.m + 1) * p[2]>> THEN "an extended range is not along the bearing"
  ELSE IF ev.turned # Turn(p, ev.h) THEN "a turned conversion is not the turned point"
  ELSE IF ev.byangle # Plus(Turn(p, ev.h), d) THEN "moving by a pose does not add the turned point to it"
  ELSE IF ev.bytp # Plus(Turn(p, ev.h), d) \/ ev.bytpp # Plus(Turn(p, ev.h), d) THEN "moving by a pose with a provider does not add the turned point to it"
  ELSE IF ev.carttp # Turn(p, ev.h) THEN "conversion with a provider is not the turned point"
  ELSE IF ~ev.pure THEN "a conversion changed its argument" ELSE ""
\* --- whole scans
Convert(ev) ==
  IF Len(ev.res) # Len(ev.pts) THEN "points were lost or added"
  ELSE IF \E i \in DOMAIN ev.pts : ev.res[i] # Turn(ev.pts[i], ev.h) THEN "a point of the converted scan is elsewhere"
  ELSE IF ev.occ2 # ev.occ THEN "conversion changed which points are hits"
  ELSE IF ev.after # [i \in DOMAIN ev.pts |-> Full(ev.pts[i])] THEN "conversion changed the scan" ELSE ""
Text(ev) == IF ev.got # ev.put THEN "a scan read back is not the scan written" ELSE ""
\* --- providers
SecAt(i) == LET us == {j \in 1 .. i : Ep.ev[j].op = "update"} IN Ep.ev[CHOOSE j \in us : \A k \in us : k <= j]
BaseAt(i, v) == LET us == {j \in 1 .. i : Ep.ev[j].op = "base" /\ Ep.ev[j].v = v} IN
  IF us = {} THEN 0 ELSE Ep.ev[CHOOSE j \in us : \A k \in us : k <= j].a
Near(a, b, t) == Abs(a - b) <= t
Ask(ev, i) ==
  LET base == BaseAt(i, ev.v)  sec == SecAt(i)
      off == {k \in DOMAIN ev.b :
        LET a == sec.lo + ev.b[k] * sec.step IN
          ~Near(ev.sin[k], Sine(base, a), sec.tol) \/ ~Near(ev.cos[k], Cosine(base, a), sec.tol)} IN
  IF off # {} THEN "a provider's sine or cosine is wrong" ELSE ""
Cast(ev, i) ==
  LET base == BaseAt(i, ev.v)  sec == SecAt(i)
      a == sec.lo + ev.b * sec.step IN
  \* range in units, result in 1/10000 units
  IF ~Near(ev.res[1], 10000 * ev.at[1] + (ev.range * Cosine(base, a)) \div 100, ev.range \div 100 + 3)
     \/ ~Near(ev.res[2], 10000 * ev.at[2] + (ev.range * Sine(base, a)) \div 100, ev.range \div 100 + 3)
  THEN "a beam's end is not at its range along its turned bearing" ELSE ""
\* --- histograms
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE s[i] + Sum(s, i - 1)
Hist(ev) ==
  LET n == ev.n  m == Len(ev.pts)
      low == TLCEval([i \in 2 .. m |-> LowBucket(ev.pts[i - 1], ev.pts[i], n)])
      high == TLCEval([i \in 2 .. m |-> HighBucket(ev.pts[i - 1], ev.pts[i], n)]) IN
  IF Len(ev.hist) # n THEN "the histogram has another resolution"
  ELSE IF Sum(ev.hist, n) # (IF m = 0 THEN 0 ELSE m - 1) THEN "the buckets do not add up to the number of pairs"
  ELSE IF \E b \in 1 .. n :
         \/ ev.hist[b] < Cardinality({i \in 2 .. m : low[i] = b - 1 /\ high[i] = b - 1})
         \/ ev.hist[b] > Cardinality({i \in 2 .. m : low[i] <= b - 1 /\ b - 1 <= high[i]})
       THEN "a bucket counts other pairs than those that run in its direction"
  ELSE IF ev.rev # ev.hist THEN "the histogram depends on the direction of traversal"
  ELSE IF \E i \in 2 .. m : ~\E b \in low[i] .. high[i] : ev.val[i] = ev.hist[b + 1]
       THEN "a point's count is not that of its direction's bucket"
  ELSE IF m > 0 /\ ev.val[1] # m THEN "the first point, which has no direction, is not told apart"
  ELSE IF ~(ev.max \in 1 .. n) \/ \E b \in 1 .. n : ev.hist[b] > ev.hist[ev.max] THEN "the fullest bucket is another"
  ELSE IF ~(ev.min \in 1 .. n) \/ \E b \in 1 .. n : ev.hist[b] < ev.hist[ev.min] THEN "the emptiest bucket is another"
  \* the mean direction of the fullest bucket in 1/1000 degree lies in the bucket
  ELSE IF m > 1 /\ ~(180000 * (ev.max - 1) - n * 2 <= n * ev.major /\ n * ev.major <= 180000 * ev.max + n * 2) THEN "the mean direction of a bucket lies outside it"
  ELSE IF m > 1 /\ Cardinality({<<Up(ev.pts[i - 1], ev.pts[i])>> : i \in 2 .. m}) = 1 /\
       LET v == Up(ev.pts[1], ev.pts[2])  u == ev.major \div 50 IN v[2] # 0 /\
         ~(CosU(u - 1) * v[2] - SinU(u - 1) * v[1] > -Slack(v) /\ CosU(u + 2) * v[2] - SinU(u + 2) * v[1] < Slack(v))
       THEN "the mean direction of parallel pairs is not their direction"
  ELSE ""
\* directions next to 0 and 180 degrees are those of the first and the last bucket
Hair(ev) ==
  IF Sum(ev.hist, ev.n) # ev.m - 1 THEN "the buckets do not add up to the number of pairs"
  ELSE IF \E b \in 2 .. ev.n - 1 : ev.hist[b] # 0 THEN "a bucket counts other pairs than those that run in its direction"
  ELSE IF ~(ev.max \in {1, ev.n}) THEN "the fullest bucket is another"
  ELSE IF ev.val[1] # ev.m \/ \E i \in 2 .. ev.m : ~(ev.val[i] \in {ev.hist[1], ev.hist[ev.n]})
       THEN "a point's count is not that of its direction's bucket"
  ELSE ""
Verdict(ev, i) ==
   CASE ev.op = "point" -> Point(ev) [] ev.op = "convert" -> Convert(ev) [] ev.op = "text" -> Text(ev)
     [] ev.op = "update" -> "" [] ev.op = "base" -> "" [] ev.op = "ask" -> Ask(ev, i) [] ev.op = "cast" -> Cast(ev, i)
     [] ev.op = "hist" -> Hist(ev)
     [] ev.op = "hair" -> Hair(ev)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ bad' = Verdict(Ep.ev[l + 1], l + 1)
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
