---------------------------- MODULE RasterTrace -----------------------------
(* Recorded drawings and cecums against Raster (C27). *)
EXTENDS Raster, Json, IOUtils, TLC
Eps == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pos,     \* next line of the text
          canvas,  \* cell -> <<last value, number of writes>>
          e, l, bad
vars == <<pos, canvas, e, l, bad>>
Ep == Eps[e]
TInit == e \in 1 .. Len(Eps) /\ l = 0 /\ bad = "" /\ pos = 1 /\ canvas = <<>>
Lns == Ep.lines
Draw(ev) ==
  LET rows == Rows(Lns, pos)
      at == IF ev.auto THEN AutoAt(rows, ev.wz, ev.hz) ELSE ev.at
      cs == Painted(rows, at, ev.wz, ev.hz)
      new == [c \in cs \cup DOMAIN canvas |->
               IF c \in cs THEN <<On(rows, at, ev.wz, ev.hz, c), (IF c \in DOMAIN canvas THEN canvas[c][2] ELSE 0) + 1>> ELSE canvas[c]]
      got == {<<ev.cells[i][1], ev.cells[i][2]>> : i \in DOMAIN ev.cells} IN
  /\ pos' = StopAt(Lns, pos) + 1
  /\ canvas' = new
  /\ bad' = IF got \ DOMAIN new # {} THEN "a cell outside the raster is written"
            ELSE IF DOMAIN new \ got # {} THEN "a character of the raster is not drawn"
            ELSE IF Len(ev.cells) # Cardinality(got) THEN "a cell is listed twice"
            ELSE IF \E i \in DOMAIN ev.cells : new[<<ev.cells[i][1], ev.cells[i][2]>>][1] # ev.cells[i][3] THEN "a cell got another value than its character's"
            ELSE IF \E i \in DOMAIN ev.cells : new[<<ev.cells[i][1], ev.cells[i][2]>>][2] # ev.cells[i][4] THEN "a cell is not written once per drawing"
            ELSE IF ev.odd # 0 THEN "a cell left alone changed"
            ELSE ""
Cecum(ev) ==
  LET rows == ev.lines
      want == Free(ev.w, ev.h, ev.closed)
      rects == UNION {RectCells(ev.free[i]) : i \in DOMAIN ev.free} IN
  IF ev.size # <<ev.w, ev.h>> THEN "the size of the cecum"
  ELSE IF Len(rows) # ev.h \/ \E i \in DOMAIN rows : Len(rows[i]) # ev.w THEN "the shape of the cecum's text"
  ELSE IF \E r \in 1 .. ev.h, c \in 1 .. ev.w : (Value(rows[r][c]) = 1) # (<<r - 1, c - 1>> \notin want) THEN "the walls of the cecum"
  ELSE IF ~ev.again THEN "the text of the cecum depends on earlier readings"
  ELSE IF \E i \in DOMAIN ev.free : ev.free[i][1] > ev.free[i][2] \/ ev.free[i][3] > ev.free[i][4] THEN "a free rectangle without extent"
  ELSE IF ~(rects \subseteq want) THEN "a wall in the free space"
  ELSE IF ev.w > 2 /\ ev.h > 2 /\ rects # want THEN "the free space is not the whole opening"
  ELSE ""
TNext == /\ l < Len(Ep.ev) /\ bad = "" /\ l' = l + 1 /\ e' = e
         /\ LET ev == Ep.ev[l + 1] IN
            IF ev.op = "draw" THEN Draw(ev) ELSE bad' = Cecum(ev) /\ UNCHANGED <<pos, canvas>>
TSpec == TInit /\ [][TNext]_vars
Ok == bad = ""
=============================================================================
