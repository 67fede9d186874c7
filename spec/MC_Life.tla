------------------------------- MODULE MC_Life -------------------------------
EXTENDS JLife, Json
CONSTANTS Depth, Emitting
Model == JsonDeserialize("model.json")
C == Model.classes
Ops == ToSet(Model.ops)
VARIABLES W, op, out, broken
vars == <<W, op, out, broken>>

(* ------------------- the promises, stated over the call log --------------- *)
Rank(e) == CASE e[1] = "can" -> 1 [] e[1] = "on" -> 2 [] e[1] \in {"ss", "wr", "upd"} -> 3 [] OTHER -> 4
Writes(log) == {i \in 1..Len(log) : log[i][1] \in {"write", "delete"}}
(* C12: up to the first write, and between writes, phases come in order; the
   first write is that of the saved object; a failure ends the log            *)
Phases(a, o1, r) ==
    o1.name \notin {"save", "delete"} \/
    /\ \A i \in 1..Len(r.log) - 1 : r.log[i][1] \notin {"write", "delete"} => Rank(r.log[i]) <= Rank(r.log[i + 1])
    /\ Ok(r) => /\ Writes(r.log) # {}
                /\ LET w == CHOOSE i \in Writes(r.log) : \A j \in Writes(r.log) : i <= j
                   IN /\ r.log[w][2] = o1.o
                      /\ \A i, j \in 1..w : i # j /\ r.log[i][1] = "ss" /\ r.log[j][1] = "ss" => r.log[i][2] # r.log[j][2]
                /\ o1.name = "save" => r.log[Len(r.log)][1] = "write"
                /\ o1.name = "save" => \A f \in {"up", "downs"} : \A x \in ToSet(PoolOf(a[o1.o].pool, f)) :
                                          \E i \in Writes(r.log) : r.log[i][2] = x
    /\ r.out = <<"exc", "Unauthorized">> /\ Writes(r.log) = {} => r.W = a /\ \A i \in 1..Len(r.log) : r.log[i][1] = "can"
    /\ r.out = <<"exc", "Validation">> /\ Writes(r.log) = {} =>
          \/ o1.skip \/ ~Valid(C @@ ("sub" :> SubCfg), a, o1.o) \/ \E i \in 1..Len(r.log) : r.log[i][1] = "ss"
    /\ o1.name = "save" /\ ~o1.skip /\ Ok(r) => Valid(C @@ ("sub" :> SubCfg), a, o1.o)
(* C13: who may do what                                                       *)
Kind(a, o1) == IF o1.name = "delete" THEN "cd" ELSE IF o1.name = "json" THEN "cr" ELSE IF a[o1.o].new THEN "cc" ELSE "cu"
May(a, o1) == LET cs == C[a[o1.o].c][Kind(a, o1)]
              IN cs = <<>> \/ (a[o1.o].op # NoOp /\ \A c \in ToSet(cs) : a[o1.o].op \in ToSet(c.ok))
Guarded(a, o1, r) ==
    o1.name \notin {"save", "delete", "json"} \/ a[o1.o].c = "sub" \/
    /\ (Ok(r) \/ r.out[1] = "json") => May(a, o1)
    /\ ~May(a, o1) => r.out = <<"exc", "Unauthorized">> /\ r.W = a
    /\ (May(a, o1) /\ Writes(r.log) = {} /\ ~Ok(r) /\ r.out[1] = "exc") => r.out[2] # "Unauthorized"
Tame(a, o1, r) == o1.name \in {"json", "validate", "delete", "restore"} => r.W = a
Broken(a, o1, r) == (IF Phases(a, o1, r) THEN {} ELSE {"C12"}) \cup (IF Guarded(a, o1, r) THEN {} ELSE {"C13"})
                    \cup (IF Tame(a, o1, r) THEN {} ELSE {"tame"})

Init == W = <<>> /\ op = [name |-> "init"] /\ out = [log |-> <<>>, out |-> <<"ok">>] /\ broken = {}
Next == /\ TLCGet("level") <= Depth
        /\ \E o1 \in Ops :
             /\ (IF o1.name = "new" THEN Len(W) < Model.max
                 ELSE o1.o <= Len(W) /\ (o1.name = "up" => o1.p <= Len(W)) /\ (o1.name = "save" => \A b \in ToSet(o1.bad) : b <= Len(W)))
             /\ o1.name \in {"opby", "setf", "setm", "pick", "delete", "json", "setv", "save", "store"} => W[o1.o].c # "sub"
             /\ Able(W, o1) = TRUE
             /\ \A i \in 1..Len(W) : W[i].s < 4
             /\ LET r == Step(C, W, o1)
                IN /\ W' = r.W /\ out' = [log |-> r.log, out |-> r.out]
                   /\ broken' = Broken(W, o1, r)
             /\ op' = o1
Spec == Init /\ [][Next]_vars
View == <<W, broken>>
Promised == broken = {}
Emit == Emitting => PrintT(<<"@@", ToJson([s |-> W, o |-> op', r |-> out', t |-> W'])>>)
=============================================================================
