--------------------------- MODULE CellMergeTrace ---------------------------
EXTENDS CellMerge, Json, IOUtils
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, occ, e, l, bad     \* occ: the occupancy reported last, of 10^8
vars == <<c, occ, e, l, bad>>
Ep == Eps[e]
One == 100000000
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ c = Fresh /\ occ = 0
Prior == CASE Ep.kind = Base -> One \div 4 [] Ep.kind = Gmap -> -One [] OTHER -> One \div 2

\* reported occupancy r (of 10^8) after merging o into a cell that reported occ
Expect(c2, o, r) ==
   IF ~Valid(o) THEN r = occ
   ELSE CASE Ep.kind = Base   -> r = o.p * (One \div 16)
          [] Ep.kind = Affine -> Abs(8 * r - ((8 - o.q) * occ + o.q * o.p * (One \div 16))) <= 16
          [] Ep.kind = Mean   -> Abs((r \div 1000) * 128 * c2.n - c2.s * 100000) <= 260 * c2.n
          [] Ep.kind = Gmap   -> Abs((r \div 1000) * 16 * c2.n - c2.s * 100000) <= 34 * c2.n

InRange(c2, r) == Unknown(c2) \/ (0 <= r /\ r <= One)
Common(c2, ev) == IF ev.unk # Unknown(c2) THEN "known/unknown"
                  ELSE IF ev.dbl # ev.occ THEN "occupancy views disagree"
                  ELSE IF ~InRange(c2, ev.occ) THEN "occupancy out of [0, 1]" ELSE ""

\* 10^6 * exp(-k / 16 / 0.05)
ExpTab == (0 :> 1000000) @@ (1 :> 286505) @@ (2 :> 82085) @@ (4 :> 6738) @@ (5 :> 1930)
DiscOK(d) ==       \* d = <<p, q, x, y, reported of 10^6>>
   /\ 0 <= d[5] /\ d[5] <= 1000000
   /\ IF Ep.kind = Gmap
      THEN LET h == IF c.h = 0 THEN 1 ELSE c.h
               dx == d[3] * h - c.sx   dy == d[4] * h - c.sy
               d2 == dx * dx + dy * dy               \* squared distance times 16 h^2
           IN /\ (d2 = 0) => d[5] <= 1
              /\ (d2 % (h * h) = 0 /\ (d2 \div (h * h)) \in DOMAIN ExpTab)
                   => Abs((1000000 - d[5]) - ExpTab[d2 \div (h * h)]) <= 2
              /\ (d2 > 6 * h * h) => d[5] >= 998000
      ELSE Abs(d[5] * 16 - Abs((occ \div 100) * 16 - d[1] * 1000000)) <= 48
Step(ev) ==
   CASE ev.op = "new"  -> /\ c' = Fresh /\ occ' = ev.occ
                          /\ bad' = IF ev.occ # Prior THEN "prior" ELSE Common(Fresh, ev)
     [] ev.op = "obs"  -> LET c2 == Merge(Ep.kind, c, ev) IN
                          /\ c' = c2 /\ occ' = ev.occ
                          /\ bad' = IF Common(c2, ev) # "" THEN Common(c2, ev)
                                    ELSE IF ~Expect(c2, ev, ev.occ) THEN "merged occupancy"
                                    ELSE IF Ep.kind = Base /\ Valid(ev) /\ ev.qual # ev.eq * (One \div 8) THEN "estimation quality is not taken over" ELSE ""
     [] ev.op = "disc" -> /\ UNCHANGED <<c, occ>>
                          /\ bad' = IF ev.occ # occ THEN "asking changed the cell"
                                    ELSE IF Common(c, ev) # "" THEN Common(c, ev)
                                    ELSE IF \E i \in DOMAIN ev.ds : ~DiscOK(ev.ds[i]) THEN "discrepancy" ELSE ""
     [] ev.op = "perm" -> /\ UNCHANGED <<c, occ>>
                          /\ bad' = IF \E i \in DOMAIN ev.a : Abs(ev.a[i] - ev.b[i]) > 2 THEN "depends on order" ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e /\ Step(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
