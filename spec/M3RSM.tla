-------------------------------- MODULE M3RSM --------------------------------
(* Multi-resolution scan matching: which poses compete, and which of them may win.
   Translations are in half leaves: <<i, j>>; the window is halved along an axis until its parts are shorter
   than the target step, candidates are the corners and centres of the parts, and no translation at all. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* how often a window of half-width x is halved for a step
Halvings(x, step) == CHOOSE k \in 0 .. 10 : 2 * x < step * 2 ^ k /\ \A q \in 0 .. k - 1 : 2 * x >= step * 2 ^ q
Grid(k, odd) == {i \in -(2 ^ k) .. 2 ^ k : (i + 2 ^ k) % 2 = odd}
Candidates(kx, ky) == (Grid(kx, 0) \X Grid(ky, 0)) \cup (Grid(kx, 1) \X Grid(ky, 1)) \cup {<<0, 0>>}
\* rotations: 0, +-1, +-2 ... steps within the sector
Rotations(sector, step) == LET n == sector \div (2 * step) IN -n .. n
\* F: scores by <<i, j, r>>; d: the pose returned with score s. "" or what is wrong
Fault(C, R, F(_, _, _), d, s, eps) ==
  LET best == Max({F(c[1], c[2], r) : c \in C, r \in R}) IN
  IF <<d[1], d[2]>> \notin C \/ d[3] \notin R THEN "the pose is not a candidate"
  ELSE IF Abs(F(d[1], d[2], d[3]) - s) > eps THEN "the score is not that of the pose"
  ELSE IF s < F(0, 0, 0) - eps THEN "the pose is worse than the guess"
  ELSE IF s < best - eps THEN "a better candidate was missed"
  ELSE IF \E r \in R : F(0, 0, r) = best /\ F(d[1], d[2], d[3]) = best /\ Abs(r) < Abs(d[3]) THEN "an equally good smaller rotation was passed over"
  ELSE ""
=============================================================================
