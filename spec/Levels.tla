------------------------------- MODULE Levels -------------------------------
(* A map with several resolutions: level 1 is the finest, every further one  *)
(* doubles the cell size, the last is one all-covering cell.  One level is   *)
(* active and is the one all accesses go to.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Inf == -1
\* is cell size a at least the requested size t?   (Inf = -1 stands for infinity)
AtLeast(a, t) == a = Inf \/ (t # Inf /\ t <= a)
\* the finest level whose cells are at least as large as asked for
Select(scales, t) == CHOOSE i \in DOMAIN scales : AtLeast(scales[i], t)
                        /\ \A j \in 1 .. (i - 1) : ~AtLeast(scales[j], t)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
ScaleOf(base, k, n) == IF k = n THEN Inf ELSE base * Pow2(k - 1)
Scales(base, n) == [k \in 1 .. n |-> ScaleOf(base, k, n)]
\* the level-k cell (of n levels) that contains finest cell c
Coarse(c, k, n) == IF k = n THEN <<0, 0>> ELSE <<c[1] \div Pow2(k - 1), c[2] \div Pow2(k - 1)>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
