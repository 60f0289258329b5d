----------------------------- MODULE SaveLoadMC -----------------------------
(* Maps of running-mean cells kept beside their logical states: the save     *)
(* file carries every field of every cell and the extent, so a map always is *)
(* the fold of its history, however often it went through files.             *)
EXTENDS SaveLoad
CONSTANTS Maps, Files, Vals, MaxHist
Coords == {-1, 1}
VARIABLES real, disk          \* real: m -> [ext, cells]; disk: f -> the same
vars == <<maps, files, real, disk>>
Cell0 == [n |-> 0, s |-> 0]
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x
Empty == [lo |-> 0, hi |-> 0, cells |-> [c \in Coords |-> Cell0]]
Put(r, c, v) == [lo |-> Lo(r.lo, c), hi |-> Hi(r.hi, c),
                 cells |-> [r.cells EXCEPT ![c] = [n |-> @.n + 1, s |-> @.s + v]]]
Wipe(r, c) == [lo |-> Lo(r.lo, c), hi |-> Hi(r.hi, c), cells |-> [r.cells EXCEPT ![c] = Cell0]]
Do(r, w) == IF w[1] = "new" THEN Empty ELSE IF w[1] = "put" THEN Put(r, w[2], w[3]) ELSE Wipe(r, w[2])
RECURSIVE Fold(_)
Fold(h) == IF h = <<>> THEN Empty ELSE Do(Fold(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])

Init == /\ maps = [m \in Maps |-> None] /\ files = [f \in Files |-> <<>>]
        /\ real = [m \in Maps |-> Empty] /\ disk = [f \in Files |-> Empty]
Next ==
   \/ \E m \in Maps : New(m, <<"new">>) /\ real' = [real EXCEPT ![m] = Empty] /\ disk' = disk
   \/ \E m \in Maps, c \in Coords, v \in Vals :
        /\ maps[m].live /\ Len(maps[m].hist) < MaxHist
        /\ \E w \in {<<"put", c, v>>, <<"wipe", c, 0>>} :
              Write({m}, w) /\ real' = [real EXCEPT ![m] = Do(@, w)] /\ disk' = disk
   \/ \E m \in Maps, f \in Files : maps[m].live /\ Save(m, f) /\ disk' = [disk EXCEPT ![f] = real[m]] /\ real' = real
   \/ \E m \in Maps, f \in Files : /\ maps[m].live /\ files[f] # <<>>
                                   /\ Load(m, f) /\ real' = [real EXCEPT ![m] = disk[f]] /\ disk' = disk
Spec == Init /\ [][Next]_vars
IsItsHistory == /\ \A m \in Maps : maps[m].live => real[m] = Fold(maps[m].hist)
                /\ \A f \in Files : files[f] # <<>> => disk[f] = Fold(files[f])
SameStateSameMap == \A a, b \in Maps : maps[a].live /\ maps[b].live /\ maps[a].hist = maps[b].hist => real[a] = real[b]
=============================================================================
