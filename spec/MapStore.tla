------------------------------ MODULE MapStore ------------------------------
(* A family of grid maps.  A map is its extent (lower-left external          *)
(* coordinate, width, height), its cell size and, per written coordinate,    *)
(* the list of observations merged into the cell.  Unwritten cells read as   *)
(* the unknown prototype, which is the empty list.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE store              \* handle (1..n) -> map record

Dead == [live |-> FALSE, ext |-> <<0, 0, 0, 0>>, scale |-> 0, cells |-> <<>>]
Fresh(ext, scale) == [live |-> TRUE, ext |-> ext, scale |-> scale, cells |-> <<>>]

InExt(c, x) == /\ x[1] <= c[1] /\ c[1] < x[1] + x[3]
               /\ x[2] <= c[2] /\ c[2] < x[2] + x[4]
Covers(x, y) == /\ x[1] <= y[1] /\ y[1] + y[3] <= x[1] + x[3]
                /\ x[2] <= y[2] /\ y[2] + y[4] <= x[2] + x[4]

Log(s, c) == IF c \in DOMAIN s.cells THEN s.cells[c] ELSE <<>>
SetLog(s, c, g) == [s EXCEPT !.cells = (c :> g) @@ s.cells]
Known(s) == {c \in DOMAIN s.cells : s.cells[c] # <<>>}

\* the extent a write to c may leave: unchanged when c is inside, otherwise
\* some enlargement that contains both the old extent and c
GrowOK(old, new, c) == IF InExt(c, old) THEN new = old
                       ELSE Covers(new, old) /\ InExt(c, new)

------------------------------------------------------------------------------
New(m, ext, scale)   == store' = [store EXCEPT ![m] = Fresh(ext, scale)]
Update(m, c, v, ext) == /\ store[m].live
                        /\ GrowOK(store[m].ext, ext, c)
                        /\ store' = [store EXCEPT ![m] =
                             SetLog([store[m] EXCEPT !.ext = ext], c, Append(Log(store[m], c), v))]
Reset(m, c, g, ext)  == /\ store[m].live
                        /\ GrowOK(store[m].ext, ext, c)
                        /\ store' = [store EXCEPT ![m] =
                             SetLog([store[m] EXCEPT !.ext = ext], c, g)]
Become(m, from)      == /\ store[from].live          \* copy, assignment, load of a save
                        /\ store' = [store EXCEPT ![m] = store[from]]
Drop(m)              == store' = [store EXCEPT ![m] = Dead]
=============================================================================
