------------------------------- MODULE Raster -------------------------------
(* Text rasters drawn on a map, and the cecum ("blind alley") primitive. A text is a sequence of lines of
   character codes; a raster in it goes on until an empty line or the end of the text. *)
EXTENDS Integers, Sequences, FiniteSets
Space == 32
Value(ch) == IF ch = Space THEN 0 ELSE 1
\* number of the line that ends the raster starting at line p (past the end when the text ends first)
StopAt(lines, p) ==
  LET es == {i \in p .. Len(lines) : lines[i] = <<>>} IN
  IF es = {} THEN Len(lines) + 1 ELSE CHOOSE i \in es : \A j \in es : i <= j
Rows(lines, p) == SubSeq(lines, p, StopAt(lines, p) - 1)
Width(rows) == LET ls == {Len(rows[i]) : i \in DOMAIN rows} \cup {0} IN CHOOSE n \in ls : \A k \in ls : k <= n
AutoAt(rows, wz, hz) == <<-((wz * Width(rows)) \div 2), (hz * Len(rows)) \div 2>>
\* what is drawn on cell c when the raster's top-left corner is put at `at`; -1: nothing
On(rows, at, wz, hz, c) ==
  LET col == (c[1] - at[1]) \div wz + 1
      row == (at[2] - c[2]) \div hz + 1 IN
  IF row \in DOMAIN rows /\ col \in 1 .. Len(rows[row]) THEN Value(rows[row][col]) ELSE -1
Painted(rows, at, wz, hz) ==
  {c \in (at[1] .. at[1] + wz * Width(rows) - 1) \X (at[2] - hz * Len(rows) + 1 .. at[2]) : On(rows, at, wz, hz, c) # -1}
-----------------------------------------------------------------------------
Sides == {"Top", "Bot", "Left", "Right"}
\* rows and columns from 0 at the top left
Wall(w, h, closed, r, c) ==
  CASE closed = "Top" -> r = 0 \/ c = 0 \/ c = w - 1
    [] closed = "Bot" -> r = h - 1 \/ c = 0 \/ c = w - 1
    [] closed = "Left" -> c = 0 \/ r = 0 \/ r = h - 1
    [] closed = "Right" -> c = w - 1 \/ r = 0 \/ r = h - 1
Free(w, h, closed) == {<<r, c>> \in (0 .. h - 1) \X (0 .. w - 1) : ~Wall(w, h, closed, r, c)}
\* the free rectangle <<bot, top, left, right>>, the raster's top-left cell being <<0, 0>> and a cell <<x, y>> spanning
\* from <<x, y>> to <<x + 1, y + 1>>
RectCells(q) == {<<r, c>> \in (-q[2] .. -q[1] + 1) \X (q[3] .. q[4] - 1) : -r >= q[1] /\ -r + 1 <= q[2]}
=============================================================================
