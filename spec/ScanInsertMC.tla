---------------------------- MODULE ScanInsertMC ----------------------------
(* Scans of up to three beams from the middle of a small grid, inserted beam by beam:
   each used beam leaves exactly one occupied mark, at its end, when it hit something,
   the cells it crosses before it are marked free, and nothing else changes. *)
EXTENDS ScanInsert, TLC
CONSTANTS U, N, MaxBeams
VARIABLES beams, margin, next, log
vars == <<beams, margin, next, log>>
A == <<U \div 2, U \div 2>>
Ends == {<<x, y>> \in (-N .. N) \X (-N .. N) : x % 2 = 1 /\ y % 2 = 1}
Init == beams = <<>> /\ margin \in {0, 1, 2} /\ next = 0 /\ log = {}
Collect == /\ next = 0 /\ Len(beams) < MaxBeams /\ UNCHANGED <<margin, next, log>>
           /\ \E b \in Ends, o \in BOOLEAN : beams' = Append(beams, [a |-> A, b |-> b, occ |-> o])
Begin == next = 0 /\ next' = 1 /\ UNCHANGED <<beams, margin, log>>
Path(b) == {c \in Box(A, b, U) : Crosses(A, b, c, U)} \cup {CellOf(A, U), CellOf(b, U)}
Insert == /\ next \in 1 .. Len(beams) /\ next' = next + 1 /\ UNCHANGED <<beams, margin>>
          /\ log' = IF next \in Used(beams, margin, -1)
                    THEN log \cup {[n |-> next, c |-> c, occ |-> c = CellOf(beams[next].b, U) /\ beams[next].occ] : c \in Path(beams[next].b)}
                    ELSE log
Next == Collect \/ Begin \/ Insert
Spec == Init /\ [][Next]_vars
Fits == \A n \in 1 .. next - 1 :
  LET mine == {o \in log : o.n = n} IN
  IF n \notin Used(beams, margin, -1) THEN mine = {}
  ELSE /\ CellsFault(A, beams[n].b, {o.c : o \in mine}, U) = ""
       /\ Cardinality({o \in mine : o.occ}) = (IF beams[n].occ THEN 1 ELSE 0)
       /\ \A o \in mine : o.occ => o.c = CellOf(beams[n].b, U)
Margins == Used(beams, margin, -1) = IF 2 * margin >= Len(beams) THEN {} ELSE (margin + 1) .. (Len(beams) - margin)
=============================================================================
