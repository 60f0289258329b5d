--------------------------- MODULE SearchSpaceTrace ---------------------------
(* Recorded explorations against SearchSpace (C38): the pictures left by the explorer. ep.m holds the map's cells row
   by row from the lower left one, ep.pts the points of the scan seen by the robot, ep.step the resolution. *)
EXTENDS SearchSpace, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad
vars == <<e, l, bad>>
Ep == Eps[e]
W == 100
Inside(c) == c[1] \in -50 .. 49 /\ c[2] \in -50 .. 49
Val(c) == IF Inside(c) THEN Ep.m[(c[2] + 50) * W + c[1] + 51] ELSE 2
CellAt(i) == <<(i % W) - 50, 49 - i \div W>>          \* of the i-th pixel of a picture
Sizes(ev) == IF ev.magic # "P5" \/ ev.max # 255 THEN "not a binary grey map"
             ELSE IF ev.w # W \/ ev.h # W \/ Len(ev.px) # W * W THEN "the picture has another size than the map" ELSE ""
ScanBad(ev) ==
  LET f == Colours((-50 .. 49) \X (-50 .. 49), Ep.pts)
      wrong == {i \in DOMAIN ev.px : Shown(ev.px[i]) \notin f[CellAt(i - 1)]} IN
  IF Sizes(ev) # "" THEN Sizes(ev)
  ELSE IF wrong # {} THEN "the picture of the scan shows something else at " \o ToString(CellAt(Low(wrong) - 1)) ELSE ""
SpaceBad(ev) ==
  LET os == Offsets(Ep.reach, Ep.step)
      ps == PlacesOf(os)
      \* the last place tried in a cell: the last of those in its column and row, or the robot's own
      cols == [v \in {At(Robot + os[i], Ep.step) : i \in DOMAIN os} |-> os[High({i \in DOMAIN os : At(Robot + os[i], Ep.step) = v})]]
      own == CellOfPlace(<<0, 0>>, Ep.step)
      Tried(c) == (c[1] \in DOMAIN cols /\ c[2] \in DOMAIN cols) \/ c = own
      Final(c) == IF c[1] \in DOMAIN cols /\ c[2] \in DOMAIN cols THEN <<cols[c[1]], cols[c[2]]>> ELSE <<0, 0>>
      Right(i) == LET c == CellAt(i - 1) IN
                  IF Tried(c) THEN ev.px[i] \in Pixels(Val, Ep.pts, Final(c)) ELSE ev.px[i] \in {127, 128} IN
  IF Sizes(ev) # "" THEN Sizes(ev)
  ELSE IF \E i \in DOMAIN ev.px : ~Tried(CellAt(i - 1)) /\ ev.px[i] \notin {127, 128} THEN "a place never tried has a score"
  ELSE IF \E i \in DOMAIN ev.px : ~Right(i) THEN "a place has another score than the scan has there in the map: "
       \o ToString(CellAt((CHOOSE i \in DOMAIN ev.px : ~Right(i)) - 1)) ELSE ""
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e
         /\ LET ev == Ep.ev[l + 1] IN
            bad' = CASE ev.op = "scan" -> ScanBad(ev)
                     [] ev.op = "space" -> SpaceBad(ev)
                     [] ev.op = "files" -> IF ev.names = <<"scan_0.pgm", "sss_map_0.pgm">> THEN "" ELSE "not exactly the two pictures were written"
                     [] OTHER -> "the explorer failed"
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
