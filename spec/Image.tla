------------------------------- MODULE Image --------------------------------
(* The image of a map: one pixel per cell, top row first; files are numbered. An extent is <<x0, y0, w, h>>,
   occupancy is counted in 1/64, Unknown stands for the value -1. *)
EXTENDS Integers, Sequences, FiniteSets
Unknown == -64
Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 64 THEN 64 ELSE v
\* the pixel values that render an occupancy (a level either way for rounding)
Shades(v) == IF v = Unknown THEN {127, 128}
             ELSE LET s == (255 * (64 - Clamp(v))) \div 64 IN {k \in {s, s + 1} : k <= 255 /\ ((Clamp(v) % 64) = 0 => k = s)}
CellOf(ext, i) == <<ext[1] + (i % ext[3]), ext[2] + ext[4] - 1 - i \div ext[3]>>
PixelOf(ext, c) == (ext[2] + ext[4] - 1 - c[2]) * ext[3] + c[1] - ext[1]
Cells(ext) == (ext[1] .. ext[1] + ext[3] - 1) \X (ext[2] .. ext[2] + ext[4] - 1)
=============================================================================
