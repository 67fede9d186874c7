--------------------------------- MODULE MC_Obj --------------------------------
EXTENDS JObj, Json
CONSTANTS Depth, Emitting
Model == JsonDeserialize("model.json")
VARIABLES c, W, op, out, broken
vars == <<c, W, op, out, broken>>
Cfg == Model[c]
(* ------------------------------- the promises ------------------------------ *)
Data == {"a", "b", "p", "own"}
Others(x, y, j) == \A i \in 1..Len(x) : i # j => x[i] = y[i]
(* C23 *)
Computed(x, o1, r) ==
    /\ Others(x, r.W, o1.j)
    /\ \A i \in 1..Len(r.W) : r.W[i].mod \subseteq Data /\ (r.W[i].new => r.W[i].mod = {})
    /\ o1.k \in {"assign", "update"} /\ o1.f \in Calcs(Cfg) =>
         LET s == CalcOf(Cfg, o1.f).set
         IN /\ (s = <<>>) = (r.out = <<"error">>)
            /\ \A f \in Data : r.W[o1.j][f] = x[o1.j][f] \/ (s # <<>> /\ f = s[1])
    /\ o1.k = "input" /\ o1.f \in Calcs(Cfg) => r.W = x
    /\ o1.k \in {"validate", "read"} => \A f \in {"a", "b", "p", "new", "mod", "op"} : r.W[o1.j][f] = x[o1.j][f]
    (* a getter that names a field shows that field                            *)
    /\ \A i \in 1..Len(Cfg.calc) : Cfg.calc[i].get \in {<<<<"fval", f>>>> : f \in {"a", "b"}} =>
          Calc(Cfg, r.W, o1.j, Cfg.calc[i]) = r.W[o1.j][Cfg.calc[i].get[1][2]]
(* C24 *)
Operated(x, o1, r) ==
    /\ o1.k = "opby" =>
         /\ r.W[o1.j].op = o1.v
         /\ (o1.v # Null /\ x[o1.j].new /\ Cfg.asop # "none") => Cfg.people[Ref(r.W[o1.j].own)].id = Id(Cfg, Recorded(Cfg, o1.v))
         /\ (o1.v = Null \/ ~x[o1.j].new \/ Cfg.asop = "none") => r.W[o1.j].own = x[o1.j].own
    /\ (o1.k = "save" /\ r.out = <<"ok">> /\ x[o1.j].new /\ Cfg.asop # "none") => r.W[o1.j].own # Null
    /\ LET act == IF o1.k \in {"read", "delete"} THEN o1.k ELSE IF x[o1.j].new THEN "create" ELSE "update"
           done == o1.k \in {"save", "read", "delete"} /\ r.out[1] # "unauthorized" /\ Guarded(Cfg, act)
           who == x[o1.j].op
       IN /\ done => who # Null
          /\ (done /\ Cfg.check = <<<<"getop">>, <<"isthis">>>>) => who[1] = "d" /\ Same(Cfg, who, <<"d", o1.j>>)
          /\ (done /\ Cfg.check[1] = <<"getop">> /\ Cfg.check[2] = <<"isobj", <<<<"this">>, <<"fval", "own">>>>>>) =>
                 x[o1.j].own # Null /\ Cls(Cfg, who) = "U" /\ Id(Cfg, who) = Cfg.people[Ref(x[o1.j].own)].id
          /\ (o1.k \in {"save", "read", "delete"} /\ r.out[1] = "unauthorized") => [r.W[o1.j] EXCEPT !.own = Ref(@)] = [x[o1.j] EXCEPT !.own = Ref(@)]
Broken(x, o1, r) == (IF Computed(x, o1, r) THEN {} ELSE {"C23"}) \cup (IF Operated(x, o1, r) THEN {} ELSE {"C24"})
Init == c \in 1..Len(Model) /\ W = Fresh(Cfg) /\ op = [k |-> "init"] /\ out = <<"ok">> /\ broken = {}
Next == /\ TLCGet("level") <= Depth
        /\ \E o1 \in ToSet(Cfg.ops) :
             LET r == Step(Cfg, W, o1)
             IN W' = r.W /\ out' = r.out /\ broken' = Broken(W, o1, r) /\ op' = o1
        /\ c' = c
Spec == Init /\ [][Next]_vars
Seen == <<c, W, broken>>
Promised == broken = {}
Emit == Emitting => PrintT(<<"@@", ToJson([s |-> [c |-> c, W |-> W], o |-> op', r |-> out', t |-> [c |-> c, W |-> W'], v |-> View(Cfg, W')])>>)
=============================================================================
