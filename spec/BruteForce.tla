----------------------------- MODULE BruteForce -----------------------------
(* Brute-force enumeration: for each matching, the set of poses still to be   *)
(* proposed. A proposal removes one of them; the matching may end only when   *)
(* none is due. Where a range is not a whole number of steps, one offset past *)
(* its end (less than a step) may be proposed as well.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Values(_, _, _)
Values(from, step, to) == IF from > to THEN {} ELSE {from} \cup Values(from + step, step, to)
Due(c, g) == {<<g[1] + x, g[2] + y, g[3] + t>> :
                x \in Values(c.from[1], c.step[1], c.to[1]),
                y \in Values(c.from[2], c.step[2], c.to[2]),
                t \in Values(c.from[3], c.step[3], c.to[3])}
Past(c, g) == {<<g[1] + x, g[2] + y, g[3] + t>> :
                x \in Values(c.from[1], c.step[1], c.to[1] + c.step[1] - 1),
                y \in Values(c.from[2], c.step[2], c.to[2] + c.step[2] - 1),
                t \in Values(c.from[3], c.step[3], c.to[3] + c.step[3] - 1)}
=============================================================================
