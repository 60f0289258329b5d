------------------------------ MODULE SaveLoad ------------------------------
(* Saving and loading maps.  The logical state of a map is what it was made  *)
(* from and everything written to it since; a file holds the logical state   *)
(* of the map saved to it, and loading makes a map have that state, at its   *)
(* finest level.  Whatever a map reports is a function of its logical state. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES maps, files
None == [live |-> FALSE, hist |-> <<>>, lvl |-> 0]
Made(h) == [live |-> TRUE, hist |-> h, lvl |-> 0]

New(m, how)    == maps' = [maps EXCEPT ![m] = Made(<<how>>)] /\ files' = files
Write(ms, w)   == /\ maps' = [m \in DOMAIN maps |-> IF m \in ms THEN [maps[m] EXCEPT !.hist = Append(@, w)] ELSE maps[m]]
                  /\ files' = files
Level(m, k)    == maps' = [maps EXCEPT ![m].lvl = k] /\ files' = files
Save(m, f)     == files' = [files EXCEPT ![f] = maps[m].hist] /\ maps' = maps
Load(m, f)     == maps' = [maps EXCEPT ![m] = Made(files[f])] /\ files' = files
=============================================================================
