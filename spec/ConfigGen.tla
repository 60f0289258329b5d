------------------------------ MODULE ConfigGen -----------------------------
(* Writes the configurations to be built by the real factories: every factory's base configuration with up to
   Depth changes, and what each of them means. *)
EXTENDS Config, Json, IOUtils, SequencesExt
CONSTANT Depth
RECURSIVE Near(_, _)
Near(m, d) == IF d = 0 THEN {m.base}
  ELSE LET old == Near(m, d - 1) IN
    old \cup {(kv[1] :> kv[2]) @@ q : kv \in UNION {{<<k, v>> : v \in m.keys[k]} : k \in DOMAIN m.keys}, q \in old}
        \cup UNION {{[x \in DOMAIN q \ {k} |-> q[x]] : k \in DOMAIN q} : q \in old}
Wide(f) == f \in {"slam", "sm", "spe", "gmspe", "map", "adder", "credibilist", "gmapping"}
Cases == UNION {UNION {{[f |-> f, p |-> q, want |-> Means(f, q), file |-> ""] : q \in Near(Menu[f][i], IF Wide(f) THEN Depth ELSE Depth + 1)} : i \in DOMAIN Menu[f]} : f \in DOMAIN Menu}
\* the settings files of the repository
Shipped == LET s == ndJsonDeserialize(IOEnv.SHIPPED) IN
  {LET p == FunOf(s[i].p) IN [f |-> s[i].f, p |-> p, want |-> Means(s[i].f, p), file |-> s[i].file] : i \in DOMAIN s}
Flat(c) == [f |-> c.f, want |-> c.want, file |-> c.file, p |-> SetToSeq({<<k, c.p[k]>> : k \in DOMAIN c.p})]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Flat(c) : c \in Cases \cup Shipped}))
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
