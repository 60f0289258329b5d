------------------------------ MODULE BeliefMC ------------------------------
(* The conjunctive rule over subsets of {empty, occupied} written as the     *)
(* implementation has it: hypotheses are bit masks, masses multiply into the *)
(* bitwise OR of the masks, conflict (3) is then dropped (normalised away).  *)
(* Integer masses, compared up to a common factor.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS D, Depth                    \* observation masses sum to D
VARIABLES b, hist                     \* b: unnormalised <<u, e, o>>
vars == <<b, hist>>
Obs == {<<u, v, w>> \in (0 .. D) \X (0 .. D) \X (0 .. D) : u + v + w = D}
Or(i, j) == LET Bit(x, k) == (x \div k) % 2
                B(k) == IF Bit(i, k) + Bit(j, k) > 0 THEN k ELSE 0
            IN B(1) + B(2)
Mass(x, i) == IF i = 3 THEN 0 ELSE x[i + 1]
RECURSIVE SumPairs(_, _, _, _)
SumPairs(x, y, t, S) == IF S = {} THEN 0
   ELSE LET p == CHOOSE q \in S : TRUE IN
        (IF Or(p[1], p[2]) = t THEN Mass(x, p[1]) * Mass(y, p[2]) ELSE 0) + SumPairs(x, y, t, S \ {p})
Pairs == (0 .. 3) \X (0 .. 3)
Conj(x, y) == <<SumPairs(x, y, 0, Pairs), SumPairs(x, y, 1, Pairs), SumPairs(x, y, 2, Pairs)>>
Sum(x) == x[1] + x[2] + x[3]
Same(x, y) == \A i, j \in 1 .. 3 : x[i] * y[j] = x[j] * y[i]
RECURSIVE Fold(_, _)
Fold(x, s) == IF s = <<>> THEN x ELSE Fold(Conj(x, Head(s)), Tail(s))
Init == b = <<1, 0, 0>> /\ hist = <<>>
Next == Len(hist) < Depth /\ \E x \in Obs : /\ Sum(Conj(b, x)) > 0
                                           /\ b' = Conj(b, x) /\ hist' = Append(hist, x)
Spec == Init /\ [][Next]_vars
NonNegative == \A i \in 1 .. 3 : b[i] >= 0
Known == Sum(b) > 0
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == /\ Same(Fold(<<1, 0, 0>>, Rev(hist)), b)
             /\ Len(hist) >= 2 => Same(Fold(<<1, 0, 0>>, <<hist[2], hist[1]>> \o SubSeq(hist, 3, Len(hist))), b)
Ignorance == Same(Conj(b, <<D, 0, 0>>), b)
\* the closed form the trace specification uses
ClosedForm == [][LET x == hist'[Len(hist')] IN
   b' = <<b[1] * x[1], b[2] * x[1] + b[1] * x[2] + b[2] * x[2], b[3] * x[1] + b[1] * x[3] + b[3] * x[3]>>]_vars
=============================================================================
