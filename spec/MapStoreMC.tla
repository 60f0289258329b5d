----------------------------- MODULE MapStoreMC -----------------------------
(* Exhaustive exploration of the map family with small constants.            *)
EXTENDS MapStore
CONSTANTS Handles, Vals, MaxLog, Hi
Lo == -1
Coords == (Lo .. Hi) \X {0}
Exts == {<<a, 0, n, 1>> : a \in Lo .. 0, n \in 1 .. (Hi - Lo + 1)}
Extents == {x \in Exts : x[1] + x[3] <= Hi + 1 /\ InExt(<<0, 0>>, x)}

Init == store = [m \in Handles |-> IF m = 1 THEN Fresh(<<0, 0, 1, 1>>, 1) ELSE Dead]
Next == \/ \E m \in Handles, c \in Coords, v \in Vals, x \in Extents :
              Len(Log(store[m], c)) < MaxLog /\ Update(m, c, v, x)
        \/ \E m \in Handles, c \in Coords, v \in Vals, x \in Extents :
              Reset(m, c, <<v>>, x) \/ Reset(m, c, <<>>, x)
        \/ \E m, f \in Handles : m # f /\ Become(m, f)
        \/ \E m \in Handles : Cardinality({k \in Handles : store[k].live}) > 1 /\ Drop(m)
Spec == Init /\ [][Next]_store

Contained == \A m \in Handles : \A c \in DOMAIN store[m].cells : InExt(c, store[m].ext)
\* a step changes at most one map, and a write at most one cell of it
OneMap == Cardinality({m \in Handles : store[m] # store'[m]}) <= 1
OneCell == \A m \in Handles :
   (store[m].live /\ store'[m].live /\ store[m] # store'[m]) =>
      \/ \E f \in Handles : f # m /\ store'[m] = store[f]
      \/ /\ Cardinality({c \in Coords : Log(store[m], c) # Log(store'[m], c)}) <= 1
         /\ Covers(store'[m].ext, store[m].ext)
Frame == [][OneMap /\ OneCell]_store
=============================================================================
