------------------------------ MODULE MC_Core ------------------------------
(* Every sequence (to a depth) of the operations listed in model.json, on the
   classes described there.  What the properties promise is stated here once
   more, directly over a step, without the interpreter of JCore.            *)
EXTENDS JCore, Json
CONSTANTS Depth, Emitting
Model == JsonDeserialize("model.json")
Sch == Model.schema
Dts == ToSet(Model.dates)
Ops == ToSet(Model.ops)
VARIABLES st, op, out, broken
vars == <<st, op, out, broken>>

Bare(s) == [s EXCEPT !.W.S = <<>>, !.W.D = {}]
Full(s) == [s EXCEPT !.W.S = Sch, !.W.D = Dts]

(* unreachable objects are forgotten and the rest renumbered in dump order   *)
RECURSIVE Ren(_, _)
Ren(v, m) == CASE IsO(v) -> O(m[v[2]])
               [] IsList(v) -> L([i \in 1..Len(v[2]) |-> Ren(v[2][i], m)])
               [] IsDict(v) -> D([i \in 1..Len(v[2]) |-> <<v[2][i][1], Ren(v[2][i][2], m)>>])
               [] OTHER -> v
Gc(s) ==
    LET ord == DumpSeq(s.W, [i \in 1..Len(s.vars) |->
                               IF s.vars[i] = 0 THEN Null ELSE O(s.vars[i])], <<>>).s
        m == [o \in ToSet(ord) |-> CHOOSE i \in 1..Len(ord) : ord[i] = o]
    IN [s EXCEPT !.W.h = [i \in 1..Len(ord) |->
                            LET ob == s.W.h[ord[i]]
                            IN [ob EXCEPT !.f = [n \in DOMAIN ob.f |-> Ren(ob.f[n], m)]]],
                 !.vars = [i \in 1..Len(s.vars) |-> IF s.vars[i] = 0 THEN 0 ELSE m[s.vars[i]]]]

(* ------------------ the properties, over one step ------------------------ *)
Old(a) == 1..Len(a.W.h)
\* C01
MarkKept(fl, v, w) ==
    /\ fl.w = "ro" => w = v
    /\ fl.w = "once" /\ v # Null => w = v
    /\ fl.w = "nonnull" /\ v # Null => w # Null
Marks(a, o1, b, r) ==
    o1.name \notin {"new", "set"} \/
    /\ \A o \in Old(a) : \A fl \in ToSet(FieldsOf(a.W, a.W.h[o].c)) :
          (fl.opp = "" => MarkKept(fl, a.W.h[o].f[fl.n], b.W.h[o].f[fl.n]))
    \* objects made by this step: read-only fields hold their defaults
    /\ \A o \in Len(a.W.h) + 1..Len(b.W.h) :
          \A fl \in ToSet(FieldsOf(a.W, b.W.h[o].c)) :
             fl.w = "ro" /\ fl.opp = "" /\ ~IsRef(fl) => b.W.h[o].f[fl.n] \in {DefaultOf(fl), Null}
\* unmarked scalar fields take the given value
Takes(a, o1, b, r) ==
    o1.name \notin {"new", "set"} \/ r[1] # "ok" \/
    LET o == b.vars[o1.x]
        c == b.W.h[o].c
        touched == {e.parts[1] : e \in ToSet(o1.in.c)}
    IN \A fl \in ToSet(FieldsOf(a.W, c)) :
         LET g == IF Get(o1.in.m, fl.j) # Null THEN Get(o1.in.m, fl.j) ELSE Get(o1.in.m, fl.n)
         IN fl.w = "rw" /\ fl.t.k \in {"int", "str", "bool"} /\ g # Null
            /\ fl.n \notin touched /\ fl.j \notin touched => Eq(<<>>, b.W.h[o].f[fl.n], g)
\* C02
RECURSIVE Foreign(_, _, _), ForeignV(_, _)
ForeignV(t, v) ==          \* does a value for a field of type t hold an unwelcome key
    CASE t.k = "obj" /\ IsDict(v) ->
              Foreign(t.cls, v[2], IF t.sx = "strict" THEN TRUE ELSE Sch[t.cls].strict)
      [] t.k = "list" /\ IsList(v) -> \E x \in ToSet(v[2]) : ForeignV(t.item, x)
      [] t.k = "dict" /\ IsDict(v) -> \E x \in ToSet(v[2]) : ForeignV(t.item, x[2])
      [] OTHER -> FALSE
Known(c) == UNION {{fl.n, fl.j, fl.idk, fl.jidk} \ {""} : fl \in ToSet(Sch[c].fields)}
Foreign(c, pairs, strict) ==
    \/ strict /\ \E e \in ToSet(pairs) : e[1] \notin Known(c)
    \/ \E e \in ToSet(pairs) : \E fl \in ToSet(Sch[c].fields) :
          e[1] \in {fl.n, fl.j} /\ fl.w \in {"rw", "nonnull"} /\ ForeignV(fl.t, e[2])
Strictly(a, o1, b, r) ==
    o1.name \notin {"new", "set"} \/ o1.in.c # <<>> \/
    LET c == IF o1.name = "new" THEN o1.cls ELSE a.W.h[a.vars[o1.x]].c
        f == Foreign(c, o1.in.m, Sch[c].strict)
    IN /\ f => (r[1] = "exc" /\ r[2] = "ValidationException")
       /\ ~f /\ Model.noparse => r[1] = "ok"
       \* refused on its own keys: nothing happened to it
       /\ (Sch[c].strict /\ \E e \in ToSet(o1.in.m) : e[1] \notin Known(c))
             => b.W.h = a.W.h /\ b.vars = a.vars
\* C03
RECURSIVE Clean(_, _, _, _), CleanV(_, _, _)
CleanV(t, j, wo) ==
    CASE t.k = "obj" /\ IsDict(j) -> Clean(t.cls, j[2], wo, <<"all">>)
      [] t.k = "list" /\ IsList(j) -> \A x \in ToSet(j[2]) : CleanV(t.item, x, wo)
      [] t.k = "dict" /\ IsDict(j) -> \A x \in ToSet(j[2]) : CleanV(t.item, x[2], wo)
      [] OTHER -> TRUE
Clean(c, pairs, wo, picks) ==
    \A e \in ToSet(pairs) :
      \E fl \in ToSet(Sch[c].fields) :
         /\ e[1] \in {fl.j, fl.jidk}
         /\ fl.r \/ wo
         /\ fl.st = "temp" => FALSE
         /\ picks = <<"all">> \/ fl.n \in ToSet(picks[2])
         /\ e[1] = fl.j => CleanV(fl.t, e[2], wo)
Hides(a, o1, b, r) ==
    o1.name # "json" \/
    LET ob == a.W.h[a.vars[o1.x]]
        nulls == IF o1.opt.null = "class" THEN Sch[ob.c].onull ELSE o1.opt.null = "yes"
        vis(fl) == (fl.r \/ o1.opt.wo) /\ fl.st # "temp"
                   /\ (ob.picks = <<"all">> \/ fl.n \in ToSet(ob.picks[2]))
    IN /\ Clean(ob.c, r[2][2], o1.opt.wo, ob.picks)
       /\ \A fl \in ToSet(Sch[ob.c].fields) :
            /\ vis(fl) /\ ob.f[fl.n] # Null => fl.j \in DKeys(r[2][2])
            /\ vis(fl) /\ ob.f[fl.n] = Null => (fl.j \in DKeys(r[2][2]) <=> nulls)
       /\ Len(r[2][2]) = Cardinality(DKeys(r[2][2]))
       /\ b.W.h = a.W.h
\* C05: some checked place is wrong, stated over the set of reachable places
RECURSIVE Spread(_, _)
Places(W, t, v) ==          \* <<type, value>> below a value, not through objects
    LET RECURSIVE P(_, _)
        P(tt, vv) == {<<tt, vv>>} \cup
           (IF tt.k = "list" /\ IsList(vv) THEN UNION {P(tt.item, x) : x \in ToSet(vv[2])}
            ELSE IF tt.k = "dict" /\ IsDict(vv) THEN UNION {P(tt.item, x[2]) : x \in ToSet(vv[2])}
            ELSE {})
    IN P(t, v)
FieldPlaces(W, o) ==
    UNION {IF fl.st = "data" /\ ~W.h[o].new /\ fl.n \notin W.h[o].mod THEN {}
           ELSE Places(W, fl.t, W.h[o].f[fl.n])
           : fl \in ToSet(FieldsOf(W, W.h[o].c))}
Spread(W, S0) ==
    LET nx == S0 \cup UNION {{p[2][2] : p \in {q \in FieldPlaces(W, o) : IsO(q[2])}} : o \in S0}
    IN IF nx = S0 THEN S0 ELSE Spread(W, nx)
WrongField(W, o, fl) ==
    LET v == W.h[o].f[fl.n]
        has == fl.st = "foreign" \/ (fl.st = "local" /\ W.h[o].k[fl.n] \notin {Null, L(<<>>)})
        wrong(p) == \/ p[2] = Null /\ p[1].req
                    \/ p[2] # Null /\ p[1].k = "obj" /\ (~IsO(p[2]) \/ W.h[p[2][2]].c # p[1].cls)
                    \/ p[2] # Null /\ p[1].k # "obj" /\ ~TypeOk(p[1], p[2])
    IN /\ ~(fl.st = "data" /\ ~W.h[o].new /\ fl.n \notin W.h[o].mod)
       /\ IF v = Null THEN fl.t.req /\ ~has ELSE \E p \in Places(W, fl.t, v) : wrong(p)
Wrong(W, o) == \E x \in Spread(W, {o}) : \E fl \in ToSet(FieldsOf(W, W.h[x].c)) : WrongField(W, x, fl)
Judges(a, o1, b, r) ==
    /\ o1.name = "validate" => (r[1] = "exc" <=> Wrong(a.W, a.vars[o1.x]))
    /\ o1.name = "isvalid" => (r[2] <=> ~Wrong(a.W, a.vars[o1.x]))
    /\ o1.name \in {"validate", "isvalid"} => b.W.h = a.W.h
\* C14: reading the JSON form back gives an equal object
Returns(a, o1, b, r) ==
    o1.name # "again" \/
    LET x == a.vars[o1.x]
        J == JObj(a.W, x, <<>>, {}, o1.opt, "")
        R == Reach(a.W, {x}, {})
        plain == \A o \in R : a.W.h[o].picks = <<"all">> /\
                   \A fl \in ToSet(FieldsOf(a.W, a.W.h[o].c)) :
                      /\ fl.r /\ fl.w = "rw" /\ fl.st = "data" /\ ~IsRef(fl)
                      /\ a.W.h[o].f[fl.n] = Null => DefaultOf(fl) = Null
    IN ~plain \/
       /\ r[1] = "ok"
       /\ LET y == b.vars[o1.y] IN
          /\ DumpV(b.W, O(y), <<>>).d = DumpV(a.W, O(x), <<>>).d
          /\ Canon(JObj(b.W, y, <<>>, {}, o1.opt, "")) = Canon(J)
\* C21: a step touches only what hangs together with the objects it names
Frame(a, o1, b, r) ==
    LET named == (IF o1.name = "new" THEN {} ELSE {a.vars[o1.x]})
                 \cup (IF o1.name = "link" THEN {a.vars[o1.y]} ELSE {})
        near == Reach(a.W, named, {})
    IN \A o \in Old(a) \ near : b.W.h[o] = a.W.h[o]
\* C11: one object per class and id inside the objects an input made
OneEach(a, o1, b, r) ==
    o1.name \notin {"new", "set"} \/
    \A p, q \in Len(a.W.h) + 1..Len(b.W.h) :
       p # q /\ b.W.h[p].c = b.W.h[q].c /\ IdOf(b.W, p) # Null => IdOf(b.W, p) # IdOf(b.W, q)

Broken(a, o1, b, r) ==
    (IF Marks(a, o1, b, r) THEN {} ELSE {"C01 marks"})
    \cup (IF Takes(a, o1, b, r) THEN {} ELSE {"C01 takes"})
    \cup (IF Strictly(a, o1, b, r) THEN {} ELSE {"C02"})
    \cup (IF Hides(a, o1, b, r) THEN {} ELSE {"C03"})
    \cup (IF Judges(a, o1, b, r) THEN {} ELSE {"C05"})
    \cup (IF Returns(a, o1, b, r) THEN {} ELSE {"C14"})
    \cup (IF Frame(a, o1, b, r) THEN {} ELSE {"C21"})
    \cup (IF OneEach(a, o1, b, r) THEN {} ELSE {"C11"})

Init == /\ st = Bare(InitSt(Sch, Dts, Model.nvars))
        /\ op = [name |-> "init"] /\ out = OkOut /\ broken = {}
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in Ops :
           LET a == Full(st) IN
           /\ Applicable(a, o)
           /\ o.name = "new" => ~Used(a, o.x)   \* one life per variable: ids stay unique
           /\ LET r == Step(a, o)
              IN /\ ~(r.out[1] = "exc" /\ r.out[2] = "unspecified")
                 /\ st' = Bare(Gc(r.st)) /\ out' = r.out
                 /\ broken' = Broken(a, o, r.st, r.out)
           /\ op' = o
Spec == Init /\ [][Next]_vars
View == <<st, broken>>
Emit == Emitting => PrintT(<<"@@", ToJson([s |-> st, o |-> op', r |-> out', t |-> st',
                                           d |-> Dump(Full(st'))])>>)
Promised == broken = {}
=============================================================================
