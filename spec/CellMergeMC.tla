----------------------------- MODULE CellMergeMC -----------------------------
(* Merging explored over all short observation sequences of every kind.      *)
EXTENDS CellMerge
CONSTANTS Ps, Qs, Depth
VARIABLES kind, c, hist
vars == <<kind, c, hist>>
Obs == {[p |-> p, q |-> q, x |-> 0, y |-> 0, bad |-> b] : p \in Ps, q \in Qs, b \in {0, 1}}
Init == kind \in {Mean, Gmap} /\ c = Fresh /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Obs : c' = Merge(kind, c, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
InUnit == ~Unknown(c) => 0 <= c.s /\ c.s <= c.n * (IF kind = Mean THEN 128 ELSE 16)
RECURSIVE Fold(_, _)
Fold(x, s) == IF s = <<>> THEN x ELSE Fold(Merge(kind, x, Head(s)), Tail(s))
OrderFree == Fold(Fresh, [i \in 1 .. Len(hist) |-> hist[Len(hist) + 1 - i]]) = c
StaysKnown == [][~Unknown(c) => ~Unknown(c')]_vars
InvalidIgnored == [][hist'[Len(hist')].bad # 0 => c' = c]_vars
=============================================================================
