------------------------------ MODULE RasterMC ------------------------------
(* A pen that draws a text character by character, every small text, zoom and place: what it leaves on the canvas is
   what Raster says. Also every small cecum. *)
EXTENDS Raster, TLC
CONSTANTS MaxLines, MaxLen, Zooms
Lines == UNION {[1 .. n -> {Space, 43}] : n \in 0 .. MaxLen}
Texts == UNION {[1 .. n -> Lines] : n \in 0 .. MaxLines}
VARIABLES text, at, wz, hz, p, i, j, x, y, canvas, twice
vars == <<text, at, wz, hz, p, i, j, x, y, canvas, twice>>
\* p: line, j: which repetition of the line, i: column within the zoomed line
Init == text \in Texts /\ at \in {<<0, 0>>, <<-2, 3>>} /\ wz \in Zooms /\ hz \in Zooms
        /\ p = 1 /\ i = 0 /\ j = 0 /\ x = at[1] /\ y = at[2] /\ canvas = <<>> /\ twice = FALSE
Done == p > Len(text) \/ (p <= Len(text) /\ text[p] = <<>>)
Pen == /\ ~Done /\ i < wz * Len(text[p])
       /\ twice' = (twice \/ <<x, y>> \in DOMAIN canvas)
       /\ canvas' = (<<x, y>> :> Value(text[p][i \div wz + 1])) @@ canvas
       /\ x' = x + 1 /\ i' = i + 1 /\ UNCHANGED <<text, at, wz, hz, p, j, y>>
Return == /\ ~Done /\ i = wz * Len(text[p])
          /\ x' = at[1] /\ y' = y - 1 /\ i' = 0
          /\ IF j + 1 < hz THEN j' = j + 1 /\ p' = p ELSE j' = 0 /\ p' = p + 1
          /\ UNCHANGED <<text, at, wz, hz, canvas, twice>>
Next == Pen \/ Return
Spec == Init /\ [][Next]_vars
Drawn == Done => LET rows == Rows(text, 1) IN
  DOMAIN canvas = Painted(rows, at, wz, hz) /\ \A c \in DOMAIN canvas : canvas[c] = On(rows, at, wz, hz, c)
Partly == \A c \in DOMAIN canvas : canvas[c] = On(Rows(text, 1), at, wz, hz, c)
Once == ~twice
\* cecums
Open(s) == CASE s = "Top" -> "Bot" [] s = "Bot" -> "Top" [] s = "Left" -> "Right" [] s = "Right" -> "Left"
Rim(w, h, s, f) == CASE s = "Top" -> f[1] = 0 [] s = "Bot" -> f[1] = h - 1 [] s = "Left" -> f[2] = 0 [] s = "Right" -> f[2] = w - 1
ASSUME \A w \in 1 .. 7, h \in 1 .. 7, s \in Sides :
  /\ \A f \in Free(w, h, s), t \in Sides \ {Open(s)} : ~Rim(w, h, t, f)     \* closed on three sides
  /\ (w > 2 /\ h > 2) => \E f \in Free(w, h, s) : Rim(w, h, Open(s), f)     \* open on the fourth
  /\ Cardinality(Free(w, h, s)) = (IF s \in {"Top", "Bot"} THEN (IF w > 2 THEN w - 2 ELSE 0) * (h - 1)
                                                          ELSE (IF h > 2 THEN h - 2 ELSE 0) * (w - 1))
=============================================================================
