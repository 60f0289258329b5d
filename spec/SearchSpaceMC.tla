---------------------------- MODULE SearchSpaceMC ----------------------------
(* The explorer at work in small maps: it draws one beam after the other, then tries one place after the other, each
   score going to the cell of its place. The pictures it ends with are those of SearchSpace. *)
EXTENDS SearchSpace, TLC
CONSTANTS Side, Ends, Reaches, Grains, Vals
VARIABLES map, pts, step, reach, drawn, k, pic
vars == <<map, pts, step, reach, drawn, k, pic>>
Cs == (-Side .. Side) \X (-Side .. Side)
Dirs == {<<1, 0>>, <<0, 1>>, <<-1, 1>>, <<2, -1>>, <<-1, -2>>}
Points == {<<500 * e * d[1] + 20, 500 * e * d[2] - 60>> : e \in Ends, d \in Dirs}
Val(c) == IF c \in DOMAIN map THEN map[c] ELSE 2
Init == /\ pts \in {<<p>> : p \in Points} \cup {<<p, q>> : p \in Points, q \in Points}
        /\ \E S \in {{}, {<<1, 0>>}, {<<1, 0>>, <<0, 1>>}, {<<-1, 1>>, <<2, -1>>, <<2, 0>>}}, v \in Vals :
             map = [c \in Cs |-> IF c \in S THEN v ELSE IF c[1] = 0 THEN 0 ELSE 2]
        /\ step \in Grains /\ reach \in Reaches /\ drawn = 0 /\ k = 0
        /\ pic = [scan |-> Blank(Cs), space |-> <<>>]
Draw == /\ drawn < Len(pts) /\ drawn' = drawn + 1 /\ pic' = [pic EXCEPT !.scan = Drawn(@, pts[drawn + 1])]
        /\ UNCHANGED <<map, pts, step, reach, k>>
Try == /\ drawn = Len(pts) /\ k < Len(Places(reach, step)) /\ k' = k + 1
       /\ LET d == Places(reach, step)[k + 1] IN pic' = [pic EXCEPT !.space = (CellOfPlace(d, step) :> Pixels(Val, pts, d)) @@ @]
       /\ UNCHANGED <<map, pts, step, reach, drawn>>
Next == Draw \/ Try
Spec == Init /\ [][Next]_vars
Done == drawn = Len(pts) /\ k = Len(Places(reach, step))
AsSpecified == Done =>
  /\ pic.scan = Colours(Cs, pts)
  /\ LET ps == Places(reach, step) IN
     \A c \in (-9 .. 9) \X (-9 .. 9) : IF LastIn(ps, c, step) = 0 THEN c \notin DOMAIN pic.space
                                       ELSE c \in DOMAIN pic.space /\ pic.space[c] = Pixels(Val, pts, ps[LastIn(ps, c, step)])
\* every score is a shade, a beam's last cell is never left unseen, its first never black unless it ends there
Sane == /\ \A c \in DOMAIN pic.space : pic.space[c] # {} /\ pic.space[c] \subseteq 0 .. 255
        /\ \A i \in 1 .. drawn : \A c \in EndsIn(pts[i]) \cap Cs : pic.scan[c] # {"g"}
        /\ drawn > 0 => "g" \notin pic.scan[<<0, 0>>]
\* every place within the reach has its picture cell no further than a step from a tried one
Covers == LET os == Offsets(reach, step) IN os[1] = -reach /\ os[Len(os)] >= reach /\ os[Len(os)] < reach + step /\ \A i \in 2 .. Len(os) : os[i] - os[i - 1] = step
=============================================================================
