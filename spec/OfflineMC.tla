------------------------------ MODULE OfflineMC ------------------------------
(* Every small map and scan: going through the candidates one by one and       *)
(* keeping the first best ends in an allowed answer; a scan taken at a         *)
(* candidate place in a map of just what it saw is matched completely.         *)
EXTENDS Offline
CONSTANTS N
C == 2
VARIABLES occ, free, pts, cut, guess, todo, best, seen
vars == <<occ, free, pts, cut, guess, todo, best, seen>>
Grid == (-1 .. 1) \X (0 .. 1)
Bf == <<<<-2, 2, 2>>, <<0, 2, 2>>, <<0, 1, 1>>>>
Win == Window(Bf)
Ext == [any |-> TRUE, x |-> 0, y |-> 0, w |-> 0, h |-> 0]
Pts == {<<x, y, o>> : x \in {-2, 0, 2}, y \in {0, 2}, o \in {1}} \cup {<<2, 0, 0>>}
S(d) == Sum(Used(pts, cut, guess, Ext, C), 1, Plus(guess, d), occ, free, C)
Init == /\ occ \in SUBSET Grid /\ free \in SUBSET (Grid \ occ) /\ Cardinality(occ) + Cardinality(free) <= 3
        /\ pts \in UNION {[1 .. n -> Pts] : n \in 1 .. N} /\ guess \in {<<1, 1, 0>>, <<-1, 1, 1>>}
        /\ cut \in {[skip |-> 0, reach |-> -1], [skip |-> 2, reach |-> 2]}
        /\ todo = Win /\ best = Zero /\ seen = {Zero}
Test == /\ todo # {} /\ \E d \in todo :
             /\ \A o \in todo : d[1] <= o[1] /\ (d[1] = o[1] => d[2] <= o[2] /\ (d[2] = o[2] => d[3] <= o[3]))
             /\ todo' = todo \ {d} /\ seen' = seen \cup {d}
             /\ best' = IF S(d) > S(best) THEN d ELSE best
        /\ UNCHANGED <<occ, free, pts, cut, guess>>
Spec == Init /\ [][Test]_vars
NeverWorse == S(best) >= S(Zero)
Allowed == todo = {} => best \in Answers(Used(pts, cut, guess, Ext, C), guess, Win, occ, free, C)
Whole == \A d \in seen : LET use == Used(pts, cut, guess, Ext, C)
                         IN (use # <<>> /\ occ = {Cell(At(use[i], Plus(guess, d)), C) : i \in DOMAIN use}) => S(best) = 2 * Len(use)
=============================================================================
