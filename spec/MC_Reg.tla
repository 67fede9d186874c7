-------------------------------- MODULE MC_Reg --------------------------------
EXTENDS JReg, Json
CONSTANTS Depth, Emitting
Model == JsonDeserialize("model.json")
Defs == ToSet(Model.defs)
VARIABLES W, op, out, broken
vars == <<W, op, out, broken>>
Queries(w) == {[op |-> "find", g |-> o.g, n |-> o.n, kind |-> o.op] : o \in Defs}
              \cup UNION {{[op |-> "make", i |-> i, f |-> r.f, give |-> gv] : r \in RefsOf(w, i), gv \in {"obj", "member"}} : i \in Classes(w)}
              \cup {[op |-> "opts", i |-> i, ask |-> q] : i \in Classes(w), q \in Options}
              \cup {[op |-> "fields", i |-> i] : i \in Classes(w)}
(* ------------------------------ the promises ------------------------------- *)
Unique(w) == \A i, j \in 1..Len(w) : i # j => <<w[i].kind, w[i].g, w[i].n>> # <<w[j].kind, w[j].g, w[j].n>>
Scoped(w) == \A i \in Classes(w) : \A r \in RefsOf(w, i) : LET t == Target(w, i, r) IN t # 0 => w[t].g = w[i].g /\ w[t].n = r.n
(* definitions that come later change nothing that was settled before          *)
Settled(a, b) == /\ \A i \in 1..Len(a) : a[i] = b[i]
                 /\ \A i \in Classes(a) : \A r \in RefsOf(a, i) : Target(a, i, r) # 0 => Target(b, i, r) = Target(a, i, r)
                 /\ \A i \in Classes(a) : Closed(a, i) => Closed(b, i)
                 /\ \A i \in Classes(a), q \in Options : Effective(b, i, q) = Effective(a, i, q)
(* other graphs do not matter                                                   *)
Apart(w) == \A g \in {w[i].g : i \in 1..Len(w)} :
              LET mine == {i \in 1..Len(w) : w[i].g = g}
              IN \A i \in mine \cap Classes(w) : Reach(w, {i}) \subseteq mine
Told(a, o, r) == /\ o.op \in {"class", "enum"} => (r.out = <<"redefined">>) <=> (\E i \in 1..Len(a) : a[i].kind = o.op /\ a[i].g = o.g /\ a[i].n = o.n)
                 /\ r.out # <<"ok">> => r.W = a
Broken(a, o, r) == (IF Unique(r.W) THEN {} ELSE {"unique"}) \cup (IF Scoped(r.W) THEN {} ELSE {"scoped"}) \cup (IF Settled(a, r.W) THEN {} ELSE {"settled"})
                   \cup (IF Apart(r.W) THEN {} ELSE {"apart"}) \cup (IF Told(a, o, r) THEN {} ELSE {"told"})
Init == W = <<>> /\ op = [op |-> "init"] /\ out = <<"ok">> /\ broken = {}
Next == \E o1 \in (IF Len(W) < Depth THEN Defs ELSE {o \in Defs : IdOf(W, o.g, o.n, o.op) # 0}) \cup Queries(W) :
          /\ o1.op = "class" => o1.parent <= Len(W) /\ (o1.parent # 0 => W[o1.parent].kind = "class")
          /\ LET r == Step(W, o1) IN /\ W' = r.W /\ out' = r.out /\ broken' = Broken(W, o1, r)
          /\ op' = o1
Spec == Init /\ [][Next]_vars
View == <<W, broken>>
Promised == broken = {}
Emit == Emitting => PrintT(<<"@@", ToJson([s |-> W, o |-> op', r |-> out', t |-> W'])>>)
=============================================================================
