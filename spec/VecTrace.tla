------------------------------ MODULE VecTrace ------------------------------
(* Recorded arithmetic of poses, moves, points, numbers and random variables against Vec. pose is the pose an episode moves about. *)
EXTENDS Vec, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES e, l, bad, pose
vars == <<e, l, bad, pose>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ pose = Ep.start
Moves(ev) ==
  CASE ev.how \in {"plus", "step"} -> Plus(pose, ev.d)
    [] ev.how = "back" -> Plus(pose, Neg(ev.d))
    [] ev.how = "to" -> ev.d
    [] OTHER -> pose
Deltas(ev) ==
  IF ev.sum # Plus(ev.a, ev.b) \/ ev.acc # Plus(ev.a, ev.b) THEN "two moves do not add up"
  ELSE IF ev.neg # Neg(ev.a) THEN "the opposite move is wrong"
  ELSE IF ev.mag # Mags(ev.a) THEN "the size of a move is wrong"
  ELSE IF ev.sq # SqLen(ev.a) THEN "the length of a move is wrong"
  ELSE IF ev.moves = IsZero(ev.a) THEN "a move is taken for none, or the other way round"
  ELSE IF ev.same # (ev.a = ev.b) THEN "moves are compared wrongly"
  ELSE IF ev.less # AllLess(ev.a, ev.b) THEN "the sizes of moves are compared wrongly"
  ELSE IF ~IsZero(ev.none) THEN "no move is a move" ELSE ""
Points(ev) ==
  IF ev.sum # Plus(ev.a, ev.b) THEN "two points do not add up"
  ELSE IF ev.dif # Minus(ev.a, ev.b) THEN "the difference of two points is wrong"
  ELSE IF ev.left # Times(ev.k, ev.a) \/ ev.right # Times(ev.k, ev.a) THEN "a multiple of a point is wrong"
  ELSE IF ev.sq # SqLen(Minus(ev.a, ev.b)) THEN "the distance of two points is wrong"
  ELSE IF ev.same # (ev.a = ev.b) THEN "points are compared wrongly" ELSE ""
Cells(ev) ==
  IF ev.sum # Plus(ev.a, ev.b) \/ ev.acc # Plus(ev.a, ev.b) THEN "two cells do not add up"
  ELSE IF ev.dif # Minus(ev.a, ev.b) THEN "the difference of two cells is wrong"
  ELSE IF ev.neg # Neg(ev.a) THEN "the opposite cell is wrong"
  ELSE IF ev.sq # SqLen(Minus(ev.a, ev.b)) THEN "the distance of two cells is wrong"
  ELSE IF ev.same # (ev.a = ev.b) \/ ev.other # (ev.a # ev.b) THEN "cells are compared wrongly" ELSE ""
\* occupancies: <<known, probability, quality>>
Same(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN a[1] = b[1] ELSE a = b
Compare(ev) ==
  IF ~Fits(Equal(ev.d), ev.eq) \/ ~Fits(Equal(ev.d), ev.qe) THEN "numbers are taken for equal that differ, or the other way round"
  ELSE IF ~Fits(Less(ev.d), ev.lt) \/ ~Fits(Less(-ev.d), ev.gt) THEN "the smaller number is not told"
  ELSE IF ~Fits(LessEqual(ev.d), ev.le) \/ ~Fits(LessEqual(-ev.d), ev.ge) THEN "a number is not told to be at most another"
  ELSE IF ~Fits(And3(LessEqual(ev.d), LessEqual(ev.d2)), ev.ord) THEN "the order of three numbers is not told"
  ELSE IF ~Fits(And3(Less(ev.d), Less(ev.d2)), ev.strict) THEN "the strict order of three numbers is not told" ELSE ""
Verdict(ev) ==
  CASE ev.op = "move" -> IF ev.pose # Moves(ev) THEN "a pose is not where its moves take it"
                         ELSE IF ev.how = "to" /\ ev.way # Minus(ev.d, pose) THEN "the difference of two poses is wrong"
                         ELSE IF ev.at # SubSeq(Moves(ev), 1, 2) THEN "the pose's point is another one" ELSE ""
    [] ev.op = "deltas" -> Deltas(ev)
    [] ev.op = "points" -> Points(ev)
    [] ev.op = "cells" -> Cells(ev)
    [] ev.op = "occ" -> IF ev.valid # (ev.a[1] = 1) THEN "an unknown occupancy is taken for a known one, or the other way round"
                        ELSE IF ev.same # Same(ev.a, ev.b) THEN "occupancies are compared wrongly" ELSE ""
    [] ev.op = "cmp" -> Compare(ev)
    [] ev.op = "bound" -> IF ev.res # Bound(ev.a[1], ev.a[2], ev.a[3]) THEN "a value is not limited to its range" ELSE ""
    [] ev.op = "power" -> IF ev.two # Power(2, ev.i) \/ ev.three # Power(3, ev.i) THEN "the next power is wrong" ELSE ""
    \* value = (num / 16) * factor
    [] ev.op = "multiple" -> IF ev.res # (ev.num % 16 = 0) THEN "a multiple is not told" ELSE ""
    [] ev.op = "angle" -> IF ev.deg # ev.a \/ ev.turns # ev.a THEN "an angle is converted wrongly" ELSE ""
    [] ev.op = "rv" -> IF ev.again # ev.copy THEN "a copied random variable is another one"
                       ELSE IF \E i \in DOMAIN ev.s : IF ev.rv[i].kind = "gauss" THEN GaussFault(ev.s[i], ev.rv[i].a, ev.rv[i].b)
                                                       ELSE UniformFault(ev.s[i], ev.rv[i].a, ev.rv[i].b)
                       THEN "samples do not follow their distribution" ELSE ""
    [] OTHER -> "an unknown event"
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e
         /\ pose' = (IF Ep.ev[l + 1].op = "move" THEN Moves(Ep.ev[l + 1]) ELSE pose)
         /\ bad' = Verdict(Ep.ev[l + 1])
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
