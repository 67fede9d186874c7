------------------------------ MODULE MC_Links ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emitting
Data == JsonDeserialize("schema.json")
ObjMap == Data.obj
TheSchema == Data.schema
INSTANCE JLinks WITH Schema <- TheSchema
VARIABLES st, op, out
vars == <<st, op, out>>

Objs == DOMAIN ObjMap
OfCls(c) == {o \in Objs : ObjMap[o] = c}
Seqs(S, n) == UNION {{s \in [1..m -> S] : NoDup(s)} : m \in 0..n}

OpsAt(o, e) ==
    LET T == OfCls(e.to)
        b(nm) == [o |-> o, f |-> e.name, name |-> nm]
        one == IF e.kind = "one" THEN {b("one") @@ [ps |-> s] : s \in Seqs(T, 1)} ELSE {}
        many == IF e.kind # "many" THEN {} ELSE
                 {b("assign") @@ [ps |-> s] : s \in Seqs(T, 2)}
            \cup {b("append") @@ [p |-> p] : p \in T}
            \cup {b("iadd") @@ [ps |-> s] : s \in {x \in Seqs(T, 2) : Len(x) = 2}}
            \cup {b("insert") @@ [i |-> i, p |-> p] : i \in {0, -1}, p \in T}
            \cup {b("remove") @@ [p |-> p] : p \in T}
            \cup {b("pop") @@ [i |-> i] : i \in {0, -1, 3}}
            \cup {b("clear"), b("reverse")}
            \cup {b("setitem") @@ [i |-> i, p |-> p] : i \in {0, -1}, p \in T}
            \cup {b("delitem") @@ [i |-> i] : i \in {0, 1}}
            \cup {b("setslice") @@ [a |-> a, b |-> 2, ps |-> s] : a \in {0, 1}, s \in Seqs(T, 2)}
            \cup {b("delslice") @@ [a |-> 0, b |-> 2]}
        ids == IF e.store # "local" THEN {} ELSE
                 {b("ids") @@ [ps |-> s] : s \in Seqs(T \cup {"zz"}, IF e.kind = "one" THEN 1 ELSE 2)}
            \cup (IF e.kind = "many"
                  THEN {b("idsappend") @@ [p |-> p] : p \in {"zz"}}
                       \cup {b("idsremove") @@ [p |-> p] : p \in T}
                  ELSE {})
    IN one \cup many \cup ids

Ops == UNION {UNION {OpsAt(o, e) : e \in EndsOf(ObjMap[o])} : o \in Objs}

Init == /\ st \in {InitSt(ObjMap, Data.ident, p) : p \in BOOLEAN}
        /\ op = [name |-> "init"] /\ out = <<"ok", <<>>>>
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in Ops :
           /\ Applicable(st, o)
           /\ LET r == Step(st, o) IN st' = r.st /\ out' = r.out
           /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == (Emitting => PrintT(<<"@@", ToJson([s |-> st, o |-> op', r |-> out', t |-> st'])>>))
Symmetric == InvSymmetric(st)
Keys == InvKeys(st)
Graphs == InvGraph(st) /\ InvIdent(st)
Pools == InvPool(st)
NewQuiet == InvNew(st)
\* a failed operation changes nothing
Failing == [][out'[1] = "exc" /\ ~st'.dead => st' = st]_vars
=============================================================================
