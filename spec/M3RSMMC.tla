------------------------------- MODULE M3RSMMC -------------------------------
(* The search itself: best-first over ranges with upper bounds, any scores, any slack of the bounds.
   One axis, K halvings; what is found is right by M3RSM's rule. *)
EXTENDS M3RSM
CONSTANTS K, RotLo, Rot, Vals, Slacks
VARIABLES F, slack, queue, floor, result
vars == <<F, slack, queue, floor, result>>
N == 2 ^ K
Pts == -N .. N
R == -RotLo .. Rot
Bound(n) == IF n[2] = n[3] THEN F[<<n[2], n[1]>>]
            ELSE Max({F[<<i, n[1]>>] : i \in n[2] .. n[3]}) + slack * (n[3] - n[2])
Fine(n) == n[2] = n[3]
Leaf(n) == n[3] - n[2] <= 2
\* adding a match: dropped when a candidate is known to be better
AddF(fl, n) == IF Bound(n) < fl \/ ~Fine(n) THEN fl ELSE Max({fl, Bound(n)})
Roots == {<<r, 0, 0>> : r \in R} \cup {<<r, -N, N>> : r \in R}
Init == /\ F \in [Pts \X R -> Vals] /\ slack \in Slacks
        /\ queue = Roots
        /\ floor = Max({F[<<0, r>>] : r \in R})
        /\ result = <<>>
Below(m, n) == \* n is preferred to m
  \/ Bound(m) < Bound(n)
  \/ Bound(m) = Bound(n) /\ (m[3] - m[2]) > (n[3] - n[2])
  \/ Bound(m) = Bound(n) /\ (m[3] - m[2]) = (n[3] - n[2]) /\ Abs(m[1]) > Abs(n[1])
Tops == {n \in queue : ~\E m \in queue : Below(n, m)}
Mid(n) == (n[2] + n[3]) \div 2
Kids(n) == IF Leaf(n) THEN {<<n[1], n[2], n[2]>>, <<n[1], n[3], n[3]>>, <<n[1], Mid(n), Mid(n)>>}
           ELSE {<<n[1], n[2], Mid(n)>>, <<n[1], Mid(n), n[3]>>}
Next == /\ result = <<>>
        /\ \E n \in Tops :
             IF Fine(n) THEN /\ result' = <<n[2], 0, n[1], Bound(n)>> /\ UNCHANGED <<queue, floor>>
             ELSE LET good == {k \in Kids(n) : Bound(k) >= floor} IN
                  /\ queue' = (queue \ {n}) \cup good
                  /\ floor' = Max({floor} \cup {Bound(k) : k \in {x \in Kids(n) : Fine(x)}})
                  /\ UNCHANGED result
        /\ UNCHANGED <<F, slack>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverDry == result = <<>> => Tops # {}
Right == result # <<>> =>
  Fault({<<i, 0>> : i \in Pts}, R, LAMBDA i, j, r : F[<<i, r>>], <<result[1], 0, result[3]>>, result[4], 0) = ""
\* with the candidates' best still reachable
NotLost == result = <<>> => LET best == Max({F[x] : x \in DOMAIN F}) IN
  \E n \in queue : \E i \in n[2] .. n[3] : F[<<i, n[1]>>] = best
Found == <>(result # <<>>)
=============================================================================
