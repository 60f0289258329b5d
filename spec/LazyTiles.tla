------------------------------ MODULE LazyTiles ------------------------------
(* Copy-on-write storage of the tiled map, as implemented: a map is a vector *)
(* of references to tiles, a tile a vector of references to cells; a write   *)
(* first makes the tile and then the cell solely owned.  Growth moves the    *)
(* tile references and pads with references to the shared unknown tile.      *)
(* One dimension, tiles of TS cells.  Checked: refinement of MapStore.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Handles, TS, MaxTiles, Vals, MaxLog
VARIABLES maps,    \* handle -> [live, tiles: Seq(tile id), org]
          tiles,   \* tile id -> Seq of cell ids
          cells    \* cell id -> log
vars == <<maps, tiles, cells>>
UT == 0            \* the unknown tile
UC == 0            \* the unknown cell
NoMap == [live |-> FALSE, tiles |-> <<>>, org |-> 0]

TileRefs(t) == Cardinality({<<m, i>> \in Handles \X (1 .. MaxTiles) :
                  maps[m].live /\ i <= Len(maps[m].tiles) /\ maps[m].tiles[i] = t})
               + (IF t = UT THEN 1 ELSE 0)
LiveTiles == {UT} \cup UNION {{maps[m].tiles[i] : i \in DOMAIN maps[m].tiles} : m \in {k \in Handles : maps[k].live}}
CellRefs(c) == Cardinality({<<t, i>> \in LiveTiles \X (1 .. TS) : tiles[t][i] = c})
               + (IF c = UC THEN 1 ELSE 0)
FreshId(f) == CHOOSE i \in 1 .. (Cardinality(DOMAIN f) + 1) : i \notin DOMAIN f

\* garbage collection and renaming keep the state space finite
UsedCells(ts) == {UC} \cup UNION {{ts[t][i] : i \in 1 .. TS} : t \in DOMAIN ts}
Restrict(f, S) == [x \in S |-> f[x]]
Settle(mp, ts, cs) ==
   LET lt == {UT} \cup UNION {{mp[m].tiles[i] : i \in DOMAIN mp[m].tiles} : m \in {k \in Handles : mp[k].live}}
       ts2 == Restrict(ts, lt)
   IN /\ maps' = mp /\ tiles' = ts2 /\ cells' = Restrict(cs, UsedCells(ts2))

Init == /\ maps = [m \in Handles |-> IF m = 1 THEN [live |-> TRUE, tiles |-> <<UT>>, org |-> 0] ELSE NoMap]
        /\ tiles = (UT :> [i \in 1 .. TS |-> UC])
        /\ cells = (UC :> <<>>)

Padded(m, ec) ==           \* ensure_inside
   LET ic == ec + maps[m].org
       n == Len(maps[m].tiles)
       prep == IF ic < 0 THEN 1 + ((-ic) \div TS) ELSE 0
       app == IF ic >= n * TS THEN 1 + ((ic - n * TS) \div TS) ELSE 0
   IN [live |-> TRUE,
       tiles |-> [i \in 1 .. prep |-> UT] \o maps[m].tiles \o [i \in 1 .. app |-> UT],
       org |-> maps[m].org + prep * TS]

Write(m, ec, g(_)) ==
   /\ maps[m].live
   /\ LET pm == Padded(m, ec)
          ic == ec + pm.org
          ti == 1 + (ic \div TS)
          ci == 1 + (ic % TS)
          t0 == pm.tiles[ti]
          shared == t0 = UT \/ TileRefs(t0) > 1
          t1 == IF shared THEN FreshId(tiles) ELSE t0
          ts1 == IF shared THEN (t1 :> tiles[t0]) @@ tiles ELSE tiles
          mp1 == [maps EXCEPT ![m] = [pm EXCEPT !.tiles[ti] = t1]]
          \* the copied tile holds one more reference to each of its cells
          c0 == ts1[t1][ci]
          refs == CellRefs(c0) + (IF shared THEN 1 ELSE 0)
          c1 == IF refs > 1 THEN FreshId(cells) ELSE c0
          ts2 == [ts1 EXCEPT ![t1][ci] = c1]
          cs2 == (c1 :> g(cells[c0])) @@ cells
      IN Len(pm.tiles) <= MaxTiles /\ Settle(mp1, ts2, cs2)

Copy(m, f) == maps[f].live /\ m # f /\ Settle([maps EXCEPT ![m] = maps[f]], tiles, cells)

Span == -(TS) .. (2 * TS - 1)
Next == \/ \E m \in Handles, c \in Span, v \in Vals :
              Write(m, c, LAMBDA g : IF Len(g) < MaxLog THEN Append(g, v) ELSE g)
        \/ \E m \in Handles, c \in Span, v \in Vals : Write(m, c, LAMBDA g : <<v>>)
        \/ \E m, f \in Handles : Copy(m, f)
Spec == Init /\ [][Next]_vars

AbsCells(m) ==
   LET mm == maps[m]
       n == Len(mm.tiles) * TS
       at(ic) == cells[tiles[mm.tiles[1 + (ic \div TS)]][1 + (ic % TS)]]
       W == {ic \in 0 .. (n - 1) : at(ic) # <<>>}
   IN [c \in {<<ic - mm.org, 0>> : ic \in W} |-> at(c[1] + mm.org)]
AbsStore == [m \in Handles |->
   IF ~maps[m].live THEN [live |-> FALSE, ext |-> <<0, 0, 0, 0>>, scale |-> 0, cells |-> <<>>]
   ELSE [live |-> TRUE, ext |-> <<-maps[m].org, 0, Len(maps[m].tiles) * TS, 1>>, scale |-> 1, cells |-> AbsCells(m)]]
A == INSTANCE MapStore WITH store <- AbsStore

AbsLog(m, c) == IF <<c, 0>> \in DOMAIN AbsStore[m].cells THEN AbsStore[m].cells[<<c, 0>>] ELSE <<>>
\* every concrete step is a MapStore step
Refines == [][\/ \E m \in Handles, c \in Span, v \in Vals :
                   \/ A!Update(m, <<c, 0>>, v, AbsStore'[m].ext)
                   \/ A!Reset(m, <<c, 0>>, <<v>>, AbsStore'[m].ext)
                   \/ A!Reset(m, <<c, 0>>, AbsLog(m, c), AbsStore'[m].ext)
              \/ \E m, f \in Handles : A!Become(m, f)]_vars
FewCells == Cardinality(DOMAIN cells) <= 4 /\ Cardinality(DOMAIN tiles) <= 4
UnknownStaysUnknown == cells[UC] = <<>> /\ \A i \in 1 .. TS : tiles[UT][i] = UC
=============================================================================
