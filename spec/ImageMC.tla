------------------------------ MODULE ImageMC -------------------------------
(* A map that is written, grows and is dumped by two dumpers, some dumps being lost to a restart of nothing: the
   images on disk. Every file shows the map as it was when the file was written. *)
EXTENDS Image, TLC
CONSTANTS MaxDumps, Vals
VARIABLES ext, map, files, nums, hist
vars == <<ext, map, files, nums, hist>>
Names == {"a", "b"}
Init == ext = <<0, 0, 1, 1>> /\ map = (<<0, 0>> :> Unknown) /\ files = <<>> /\ nums = [n \in Names |-> 0] /\ hist = <<>>
Write == \E c \in Cells(ext), v \in Vals : map' = [map EXCEPT ![c] = v] /\ UNCHANGED <<ext, files, nums, hist>>
Grow == \E x \in {<<ext[1] - 1, ext[2], ext[3] + 1, ext[4]>>, <<ext[1], ext[2], ext[3], ext[4] + 1>>} :
          /\ x[3] <= 2 /\ x[4] <= 2 /\ ext' = x
          /\ map' = [c \in Cells(x) |-> IF c \in DOMAIN map THEN map[c] ELSE Unknown] /\ UNCHANGED <<files, nums, hist>>
\* the writer goes over rows from the top and columns from the left
RECURSIVE Raster(_, _, _)
Raster(x, y, acc) == IF y < ext[2] THEN acc
  ELSE IF x = ext[1] + ext[3] THEN Raster(ext[1], y - 1, acc)
  ELSE Raster(x + 1, y, Append(acc, CHOOSE s \in Shades(map[<<x, y>>]) : \A t \in Shades(map[<<x, y>>]) : s <= t))
Dump == \E n \in Names :
  /\ Len(hist) < MaxDumps
  /\ files' = (<<n, nums[n]>> :> [w |-> ext[3], h |-> ext[4], px |-> Raster(ext[1], ext[2] + ext[4] - 1, <<>>)]) @@ files
  /\ nums' = [nums EXCEPT ![n] = @ + 1] /\ hist' = Append(hist, [name |-> <<n, nums[n]>>, ext |-> ext, map |-> map])
  /\ UNCHANGED <<ext, map>>
Next == Write \/ Grow \/ Dump
Spec == Init /\ [][Next]_vars
\* nothing is ever overwritten, and every image shows its map cell for cell
Faithful == \A i \in DOMAIN hist : LET r == hist[i] f == files[r.name] IN
  /\ f.w = r.ext[3] /\ f.h = r.ext[4] /\ Len(f.px) = f.w * f.h
  /\ \A c \in Cells(r.ext) : f.px[PixelOf(r.ext, c) + 1] \in Shades(r.map[c])
  /\ \A k \in 0 .. Len(f.px) - 1 : PixelOf(r.ext, CellOf(r.ext, k)) = k
Numbered == \A n \in Names : {k \in 0 .. MaxDumps : <<n, k>> \in DOMAIN files} = 0 .. nums[n] - 1
ASSUME \A u, v \in 0 .. 64 : u < v => \E a \in Shades(u), b \in Shades(v) : a >= b
=============================================================================
