------------------------------ MODULE BoundsMC ------------------------------
(* The propagation algorithm of the matching map, in one dimension: a write  *)
(* walks up the levels, raising coarse cells and stopping at the first that  *)
(* needs no change; a level that outgrows two cells makes new levels appear  *)
(* between it and the coarsest one, populated from the level below.          *)
EXTENDS Levels
CONSTANTS Span, Imps, InitW, Populate
VARIABLES lev,   \* sequence of [lo, hi, c: cell -> impact]; the last level is the single cell 0
          top    \* finest cell -> largest impact ever
vars == <<lev, top>>
Blank(lo, hi) == [lo |-> lo, hi |-> hi, c |-> <<>>]
Width(L) == L.hi - L.lo + 1
RECURSIVE GePow(_, _)
GePow(p, w) == IF p >= w THEN p ELSE GePow(2 * p, w)
Put(L, x, v) == [lo |-> IF x < L.lo THEN x ELSE L.lo, hi |-> IF x > L.hi THEN x ELSE L.hi,
                 c |-> (x :> v) @@ L.c]
Raise(L, x, v) == IF x \in DOMAIN L.c /\ L.c[x] >= v THEN L ELSE Put(L, x, v)
RECURSIVE RaiseAll(_, _, _, _)          \* raise L by every known cell of F (coordinates divided by d)
RaiseAll(L, F, S, d) == IF S = {} THEN L
   ELSE LET x == CHOOSE y \in S : TRUE IN RaiseAll(Raise(L, IF d = 0 THEN 0 ELSE x \div d, F.c[x]), F, S \ {x}, d)
\* levels inserted before the last one while the one before it is too wide
RECURSIVE Extend(_, _)
Extend(ls, w) ==
   IF w <= 2 THEN ls
   ELSE LET n == Len(ls)
            w2 == IF w \div 2 > 2 THEN w \div 2 ELSE 2
            F == ls[n - 1]
            new0 == Blank(-(w2 \div 2), w2 - (w2 \div 2) - 1)
            new == IF Populate THEN RaiseAll(new0, F, DOMAIN F.c, 2) ELSE new0
            last == IF Populate THEN RaiseAll(ls[n], F, DOMAIN F.c, 0) ELSE ls[n]
        IN Extend(SubSeq(ls, 1, n - 1) \o <<new, last>>, w2)
Continuous(ls) == LET w == Width(ls[Len(ls) - 1]) IN IF w <= 2 THEN ls ELSE Extend(ls, GePow(1, w))

Fits(ls) == Width(ls[Len(ls) - 1]) <= 2
RECURSIVE Up(_, _, _, _)
Up(ls0, k, x, v) ==        \* x: coordinate on level k-1
   LET ls == Continuous(ls0) IN
   IF k > Len(ls) THEN ls
   ELSE LET y == IF k = Len(ls) THEN 0 ELSE x \div 2
            r == Raise(ls[k], y, v)
        IN IF r = ls[k] THEN ls ELSE Up([ls EXCEPT ![k] = r], k + 1, y, v)

Init == \E w \in InitW :
          /\ lev = Continuous(<<Blank(-(w \div 2), w - (w \div 2) - 1), Blank(0, 0)>>)
          /\ top = <<>>
Write(x, v) == /\ lev' = Up([lev EXCEPT ![1] = Put(lev[1], x, v)], 2, x, v)
               /\ top' = (x :> (IF x \in DOMAIN top /\ top[x] > v THEN top[x] ELSE v)) @@ top
Next == \E x \in Span, v \in Imps : Write(x, v)
SpanMC == {-5, -3, -1, 0, 2, 4}
Spec == Init /\ [][Next]_vars
Cx(x, k) == Coarse(<<x, 0>>, k, Len(lev))[1]
Bounds == \A k \in 2 .. Len(lev) :
   /\ \A x \in DOMAIN lev[1].c : /\ Cx(x, k) \in DOMAIN lev[k].c
                                 /\ lev[k].c[Cx(x, k)] >= lev[1].c[x]
   /\ \A y \in DOMAIN lev[k].c : \E x \in DOMAIN lev[1].c : Cx(x, k) = y
   /\ \A y \in DOMAIN lev[k].c : lev[k].c[y] <= Max({top[x] : x \in {z \in DOMAIN top : Cx(z, k) = y}})
\* asking for the number of levels repeats the extension until it fits
RECURSIVE Settled(_, _)
Settled(ls, fuel) == IF Fits(ls) THEN TRUE ELSE fuel > 0 /\ Settled(Continuous(ls), fuel - 1)
Fit == Settled(lev, 2)
=============================================================================
