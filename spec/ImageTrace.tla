----------------------------- MODULE ImageTrace -----------------------------
(* Recorded dumps against Image (C25): the files on disk after every dump and what they show. *)
EXTENDS Image, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES map,    \* cell -> occupancy written last
          ext,    \* extent of the map
          files,  \* name -> digest
          nums,   \* dumper -> dumps so far
          e, l, bad
vars == <<map, ext, files, nums, e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ map = <<>> /\ ext = Ep.ext /\ files = <<>> /\ nums = [n \in 1 .. Len(Ep.bases) |-> 0]
Val(c) == IF c \in DOMAIN map THEN map[c] ELSE Ep.proto
Listed(ev) == [i \in {ev.files[k].name : k \in DOMAIN ev.files} |-> (CHOOSE k \in DOMAIN ev.files : ev.files[k].name = i)]
ImageBad(im) ==
  IF im.magic # "P5" THEN "not a binary grey map"
  ELSE IF im.w # ext[3] \/ im.h # ext[4] THEN "the size in the header is not the map's"
  ELSE IF im.max # 255 THEN "the brightest value in the header"
  ELSE IF Len(im.px) # ext[3] * ext[4] THEN "not one pixel per cell"
  ELSE IF \E i \in DOMAIN im.px : Val(CellOf(ext, i - 1)) = Unknown /\ im.px[i] \notin Shades(Unknown) THEN "an unknown cell is not mid-grey"
  ELSE IF \E i \in DOMAIN im.px : im.px[i] \notin Shades(Val(CellOf(ext, i - 1))) THEN "a pixel does not show its cell"
  ELSE ""
DumpBad(ev) ==
  LET name == Ep.bases[ev.dumper] \o "_" \o ToString(nums[ev.dumper]) \o ".pgm"
      now == Listed(ev) IN
  IF ev.ext # ext \/ ~ev.pure THEN "dumping changed the map"
  ELSE IF name \notin DOMAIN now THEN "the dump did not go to the next numbered file"
  ELSE IF DOMAIN now # DOMAIN files \cup {name} THEN "other files appeared or vanished"
  ELSE IF \E n \in DOMAIN files \ {name} : ev.files[now[n]].hash # files[n] THEN "an earlier dump was overwritten"
  ELSE ImageBad(ev.image)
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e
         /\ LET ev == Ep.ev[l + 1] IN
            CASE ev.op = "write" -> map' = (ev.c :> ev.v) @@ map /\ ext' = ev.ext /\ bad' = "" /\ UNCHANGED <<files, nums>>
              [] ev.op = "dump" -> /\ bad' = DumpBad(ev)
                                   /\ files' = [n \in DOMAIN Listed(ev) |-> ev.files[Listed(ev)[n]].hash]
                                   /\ nums' = [nums EXCEPT ![ev.dumper] = @ + 1] /\ UNCHANGED <<map, ext>>
              [] ev.op = "stream" -> /\ bad' = IF ev.ext # ext \/ ~ev.pure THEN "dumping changed the map" ELSE ImageBad(ev.image)
                                     /\ UNCHANGED <<map, ext, files, nums>>
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
