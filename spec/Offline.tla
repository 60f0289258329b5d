------------------------------- MODULE Offline -------------------------------
(* Matching a saved scan against a saved map around a saved pose, over a grid  *)
(* of candidate corrections. Lengths are in units; a cell is C units wide;     *)
(* headings are quarter turns. A point scores 2 in an occupied cell, 1 in an   *)
(* unknown one and 0 in a free one; a pose's score is the mean, over twice the *)
(* number of usable points.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Cell(p, C) == <<p[1] \div C, p[2] \div C>>
Turn(p, q) == CASE q % 4 = 0 -> p [] q % 4 = 1 -> <<-p[2], p[1]>> [] q % 4 = 2 -> <<-p[1], -p[2]>> [] q % 4 = 3 -> <<p[2], -p[1]>>
At(p, pose) == LET t == Turn(p, pose[3]) IN <<pose[1] + t[1], pose[2] + t[2]>>
\* ext: the cells of a map that cannot grow; points seen outside of it at the guess do not count
Inside(c, ext) == ext.any \/ (ext.x <= c[1] /\ c[1] < ext.x + ext.w /\ ext.y <= c[2] /\ c[2] < ext.y + ext.h)
\* cut.skip: only every skip-th point of the scan counts (all if it is 0); cut.reach: none farther away (if not negative)
Every(pts, k) == IF k = 0 THEN pts ELSE [i \in 1 .. (Len(pts) + k - 1) \div k |-> pts[1 + (i - 1) * k]]
Used(pts, cut, guess, ext, C) == SelectSeq(Every(pts, cut.skip), LAMBDA p : /\ p[3] = 1 /\ Inside(Cell(At(p, guess), C), ext)
                                                                        /\ (cut.reach < 0 \/ p[1] * p[1] + p[2] * p[2] <= cut.reach * cut.reach))
\* occ, free: sets of cells
RECURSIVE Sum(_, _, _, _, _, _)
Sum(use, i, pose, occ, free, C) ==
  IF i > Len(use) THEN 0
  ELSE LET c == Cell(At(use[i], pose), C) IN (IF c \in occ THEN 2 ELSE IF c \in free THEN 0 ELSE 1) + Sum(use, i + 1, pose, occ, free, C)
Plus(a, d) == <<a[1] + d[1], a[2] + d[2], a[3] + d[3]>>
Steps(r) == {r[1] + k * r[3] : k \in 0 .. ((r[2] - r[1]) \div r[3])}
Window(bf) == Steps(bf[1]) \X Steps(bf[2]) \X Steps(bf[3])
Zero == <<0, 0, 0>>
\* the best score there is
Top(use, guess, win, occ, free, C) ==
  LET all == {Sum(use, 1, Plus(guess, d), occ, free, C) : d \in win \cup {Zero}} IN CHOOSE v \in all : \A u \in all : u <= v
\* the corrections a matching may answer with
Answers(use, guess, win, occ, free, C) ==
  LET top == Top(use, guess, win, occ, free, C)
      s(d) == Sum(use, 1, Plus(guess, d), occ, free, C)
  IN IF s(Zero) = top THEN {Zero} ELSE {d \in win : s(d) = top}
=============================================================================
