------------------------------- MODULE JLinks -------------------------------
(* Objects linked by relations.

   A schema lists relation ends: [cls, name, kind ("one"/"many"),
   store ("local": the end stores ids / "foreign"), opp (name of the opposite
   end, "" for a one-way relation), to (class at the other side)].

   State
     obj   id -> class            (fixed population)
     v     id -> end -> sequence of linked ids (at most one for "one")
     k     id -> end -> sequence of stored ids (local ends only)
     pool  id -> end -> set of ids unlinked since the last save
     grp   id -> set of ids sharing one object graph
     pers  whether the objects are persisted
     must  <<id, end>>: stored ids changed while persisted, to be reported
     ident id -> primary key      (two objects may carry the same one; "" for
           objects without, which are all alike apart from their partners)
     dead  a link was refused: the objects involved are no longer specified *)
EXTENDS JSeq, TLC
CONSTANT Schema   \* sequence of relation ends

EndsOf(c) == {e \in ToSet(Schema) : e.cls = c}
EndNames(c) == {e.name : e \in EndsOf(c)}
End(c, f) == CHOOSE e \in EndsOf(c) : e.name = f
E(st, o, f) == End(st.obj[o], f)

Rm(s, x) == SelectSeq(s, LAMBDA y : y # x)
Has(s, x) == x \in ToSet(s)

PoolAdd(st, o, f, p) == [st EXCEPT !.pool[o][f] = @ \cup {p}]
PoolDel(st, o, f, p) == [st EXCEPT !.pool[o][f] = @ \ {p}]
Touch(st, o, f) == IF st.pers THEN [st EXCEPT !.must = @ \cup {<<o, f>>}] ELSE st

(* The one end at o forgets p.                                               *)
DropEnd(st, o, f, p) ==
    LET e == E(st, o, f)
        s1 == PoolAdd([st EXCEPT !.v[o][f] = Rm(@, p)], o, f, p)
    IN IF e.store = "local" /\ Has(st.k[o][f], p)
       THEN Touch([s1 EXCEPT !.k[o][f] = Rm(@, p)], o, f) ELSE s1
AddEnd(st, o, f, p) ==
    LET e == E(st, o, f)
        s1 == PoolDel(IF Has(st.v[o][f], p) THEN st
                      ELSE [st EXCEPT !.v[o][f] = Append(@, p)], o, f, p)
    IN IF e.store = "local" /\ ~Has(st.k[o][f], p)
       THEN Touch([s1 EXCEPT !.k[o][f] = IF e.kind = "one" THEN <<p>> ELSE Append(@, p)], o, f)
       ELSE s1

Unlink(st, o, f, p) ==
    LET e == E(st, o, f)
        s1 == DropEnd(st, o, f, p)
    IN IF e.opp = "" \/ ~Has(s1.v[p][e.opp], o) THEN s1 ELSE DropEnd(s1, p, e.opp, o)

Merge(st, o, p) ==
    LET g == st.grp[o] \cup st.grp[p]
    IN [st EXCEPT !.grp = [x \in DOMAIN st.grp |-> IF x \in g THEN g ELSE st.grp[x]]]

(* Make o and p partners over f; whoever stands in the way is let go.        *)
Link(st, o, f, p) ==
    LET e == E(st, o, f)
        s1 == IF e.kind = "one" /\ st.v[o][f] # <<>> /\ st.v[o][f] # <<p>>
              THEN Unlink(st, o, f, st.v[o][f][1]) ELSE st
    IN IF e.opp = "" THEN AddEnd(s1, o, f, p)
       ELSE LET oe == E(st, p, e.opp)
                s2 == IF oe.kind = "one" /\ s1.v[p][e.opp] # <<>> /\ s1.v[p][e.opp] # <<o>>
                      THEN Unlink(s1, p, e.opp, s1.v[p][e.opp][1]) ELSE s1
            IN Merge(AddEnd(AddEnd(s2, o, f, p), p, e.opp, o), o, p)

RECURSIVE UnlinkAll(_, _, _, _)
UnlinkAll(st, o, f, ps) == IF ps = <<>> THEN st
                           ELSE UnlinkAll(Unlink(st, o, f, ps[1]), o, f, Tail(ps))
RECURSIVE LinkAll(_, _, _, _)
LinkAll(st, o, f, ps) == IF ps = <<>> THEN st
                         ELSE LinkAll(Link(st, o, f, ps[1]), o, f, Tail(ps))

InsertIds(k, ps) ==      \* ids of new partners go where the partners are
    FoldSeq(LAMBDA i, acc : IF Has(acc, ps[i]) THEN acc
                            ELSE LET n == SClamp(i - 1, 0, Len(acc))
                                 IN SubSeq(acc, 1, n) \o <<ps[i]>> \o SubSeq(acc, n + 1, Len(acc)),
            k, [i \in 1..Len(ps) |-> i])

InStep(st, o, f) == st.k[o][f] = st.v[o][f]

(* Make the partners of o over f exactly ps, in this order.  Where objects
   and ids were in step they stay in step; ids without a partner survive.    *)
Become(st, o, f, ps) ==
    LET old == st.v[o][f]
        s1 == UnlinkAll(st, o, f, SelectSeq(old, LAMBDA x : ~Has(ps, x)))
        s2 == LinkAll(s1, o, f, ps)
        s3 == [s2 EXCEPT !.v[o][f] = ps]
        k == IF InStep(st, o, f) THEN ps ELSE InsertIds(s1.k[o][f], ps)
    IN IF E(st, o, f).store = "local" /\ E(st, o, f).kind = "many" /\ s2.k[o][f] # k
       THEN Touch([s3 EXCEPT !.k[o][f] = k], o, f)
       ELSE s3

(* Assigning a whole list: the old one is let go, the ids are those of the
   new one.                                                                  *)
Assign(st, o, f, ps) ==
    IF ps = st.v[o][f] THEN st
    ELSE LET s1 == UnlinkAll(st, o, f, st.v[o][f])
             s2 == IF E(st, o, f).store = "local" THEN [s1 EXCEPT !.k[o][f] = <<>>] ELSE s1
         IN Become(s2, o, f, ps)

(* The id side: partners whose id is not kept are let go, unknown ids are
   stored without a partner.                                                *)
BecomeIds(st, o, f, ids) ==
    IF ids = st.k[o][f] THEN st
    ELSE LET keep == SelectSeq(st.v[o][f], LAMBDA x : Has(ids, x))
             gone == SelectSeq(st.v[o][f], LAMBDA x : ~Has(ids, x))
             s1 == UnlinkAll(st, o, f, gone)
         IN Touch([s1 EXCEPT !.v[o][f] = keep, !.k[o][f] = ids], o, f)

R(st, out) == [st |-> st, out |-> out]
Ok == <<"ok", <<>>>>

(* Linking would bring two objects of one class and one primary key into a
   single graph.                                                             *)
Conflict(st, o, f, ps) ==
    E(st, o, f).opp # "" /\
    LET new == ToSet(ps) \ ToSet(st.v[o][f])
        g == UNION {st.grp[p] : p \in new \cup {o}}
    IN new # {} /\ \E a, b \in g : a # b /\ st.ident[a] # "" /\ st.obj[a] = st.obj[b] /\ st.ident[a] = st.ident[b]
(* list.remove takes out the first element equal to its argument.            *)
Alike(st, a, b) == a = b \/ (st.ident[a] = "" /\ st.ident[b] = "" /\ st.obj[a] = st.obj[b] /\ st.v[a] = st.v[b])
Meant(st, op) ==
    IF op.name # "remove" \/ st.ident[op.p] # "" THEN op
    ELSE LET s == SelectSeq(st.v[op.o][op.f], LAMBDA x : Alike(st, x, op.p))
         IN IF s = <<>> THEN op ELSE [op EXCEPT !.p = s[1]]
Target(st, op) ==      \* the partners the operation asks for
    IF op.name \in {"one", "assign"} THEN op.ps
    ELSE IF op.name \in SeqOpNames THEN SeqOp(op, st.v[op.o][op.f]).c
    ELSE <<>>

Step(st, op) ==
    CASE op.name # "mark" /\ Conflict(st, op.o, op.f, Target(st, op)) ->
            R([st EXCEPT !.dead = TRUE], <<"exc", "JSONClassGraphMergeConflictException">>)
      [] op.name = "one" -> R(Become(st, op.o, op.f, op.ps), Ok)
      [] op.name = "assign" -> R(Assign(st, op.o, op.f, op.ps), Ok)
      [] op.name = "ids" -> R(BecomeIds(st, op.o, op.f, op.ps), Ok)
      [] op.name = "idsappend" -> R(BecomeIds(st, op.o, op.f, Append(st.k[op.o][op.f], op.p)), Ok)
      [] op.name = "idsremove" ->
            IF ~Has(st.k[op.o][op.f], op.p) THEN R(st, <<"exc", "ValueError">>)
            ELSE R(BecomeIds(st, op.o, op.f, Rm(st.k[op.o][op.f], op.p)), Ok)
      [] op.name = "mark" -> R([st EXCEPT !.pers = TRUE, !.must = {}], Ok)
      [] op.name \in SeqOpNames ->
            LET r == SeqOp(Meant(st, op), st.v[op.o][op.f])
            IN IF r.exc # "" THEN R(st, <<"exc", r.exc>>)
               ELSE R(Become(st, op.o, op.f, r.c), <<"ok", r.ret>>)

(* Meaningful: lists of partners hold no duplicates; one end never gets two. *)
Applicable(st, op) == ~st.dead /\
    CASE op.name = "mark" -> TRUE
      [] op.name = "one" -> E(st, op.o, op.f).kind = "one" /\ Len(op.ps) <= 1
      [] op.name = "assign" -> E(st, op.o, op.f).kind = "many" /\ NoDup(op.ps)
      [] op.name = "ids" -> /\ E(st, op.o, op.f).store = "local" /\ NoDup(op.ps)
                            /\ (E(st, op.o, op.f).kind = "one" => Len(op.ps) <= 1)
      [] op.name = "idsappend" -> /\ E(st, op.o, op.f).store = "local"
                                  /\ E(st, op.o, op.f).kind = "many"
                                  /\ ~Has(st.k[op.o][op.f], op.p)
      [] op.name = "idsremove" -> /\ E(st, op.o, op.f).store = "local"
                                  /\ E(st, op.o, op.f).kind = "many"
      [] op.name \in SeqOpNames ->
            /\ E(st, op.o, op.f).kind = "many"
            /\ NoDup(SeqOp(op, st.v[op.o][op.f]).c)
      [] OTHER -> FALSE

InitSt(obj, ident, pers) ==
    [obj |-> obj, ident |-> ident, dead |-> FALSE, pers |-> pers, must |-> {},
     v |-> [o \in DOMAIN obj |-> [f \in EndNames(obj[o]) |-> <<>>]],
     k |-> [o \in DOMAIN obj |-> [f \in EndNames(obj[o]) |-> <<>>]],
     pool |-> [o \in DOMAIN obj |-> [f \in EndNames(obj[o]) |-> {}]],
     grp |-> [o \in DOMAIN obj |-> {o}]]

(* ------------------------------ properties ------------------------------- *)
Obj(st) == DOMAIN st.obj
\* C09
InvSymmetric(st) ==
    \A o \in Obj(st) : \A e \in EndsOf(st.obj[o]) :
        /\ NoDup(st.v[o][e.name])
        /\ e.kind = "one" => Len(st.v[o][e.name]) <= 1
        /\ e.opp # "" => \A p \in ToSet(st.v[o][e.name]) : Has(st.v[p][e.opp], o)
\* C10: every linked object's id is stored; for "one" nothing else is
InvKeys(st) ==
    \A o \in Obj(st) : \A e \in EndsOf(st.obj[o]) :
        e.store = "local" =>
            /\ ToSet(st.v[o][e.name]) \subseteq ToSet(st.k[o][e.name])
            /\ NoDup(st.k[o][e.name])
            /\ e.kind = "one" /\ st.v[o][e.name] # <<>> => st.k[o][e.name] = st.v[o][e.name]
\* C11
InvGraph(st) ==
    \A o \in Obj(st) : /\ o \in st.grp[o]
                       /\ \A e \in EndsOf(st.obj[o]) : e.opp # "" =>
                            \A p \in ToSet(st.v[o][e.name]) : st.grp[p] = st.grp[o]
InvIdent(st) ==
    \A o \in Obj(st) : \A a, b \in st.grp[o] :
        st.ident[a] # "" /\ st.obj[a] = st.obj[b] /\ st.ident[a] = st.ident[b] => a = b
\* C12 (saving unlinked objects relies on it): the pool never holds a partner
InvPool(st) == \A o \in Obj(st) : \A e \in EndsOf(st.obj[o]) :
                   st.pool[o][e.name] \cap ToSet(st.v[o][e.name]) = {}
InvNew(st) == ~st.pers => st.must = {}

(* observation: [v, k, pool, mod (pairs), ismod: ids, same: pairs of ids in
   the same graph, self: ids whose graph finds themselves]
   The position an object takes in the list at the opposite side of the
   operation (or in the list of objects, for an operation on the ids) is left open: "order-opp" is not a fault, the specification
   adopts what it sees (Adopt).                                              *)
ObsFaults(pre, op, st, ob) ==
    IF st.dead THEN IF ToSet(ob.self) = Obj(st) THEN {} ELSE {"graph-self"} ELSE
    LET objs == Obj(st)
        own == IF op.name = "mark" THEN {} ELSE {<<op.o, op.f>>}
        ownv == IF op.name \in {"ids", "idsappend", "idsremove"} THEN {} ELSE own
        \* replacing a slice by a permutation of itself leaves the ids' order open
        ownk == {w \in own : InStep(pre, w[1], w[2]) /\
                   ~(op.name = "setslice" /\ ToSet(pre.v[w[1]][w[2]]) = ToSet(st.v[w[1]][w[2]]))}
        ends(o) == EndNames(st.obj[o])
        mod == ToSet(ob.mod)
        same == ToSet(ob.same)
    IN  (IF \A o \in objs : \A f \in ends(o) : ToSet(ob.v[o][f]) = ToSet(st.v[o][f])
         THEN {} ELSE {"partners"})
   \cup (IF \A o \in objs : \A f \in ends(o) : NoDup(ob.v[o][f]) THEN {} ELSE {"duplicate"})
   \cup (IF \A w \in ownv : ToSet(ob.v[w[1]][w[2]]) = ToSet(st.v[w[1]][w[2]])
                => ob.v[w[1]][w[2]] = st.v[w[1]][w[2]] THEN {} ELSE {"order"})
   \cup (IF \A o \in objs : \A f \in ends(o) : End(st.obj[o], f).store = "local"
                => ToSet(ob.k[o][f]) = ToSet(st.k[o][f]) /\ NoDup(ob.k[o][f])
         THEN {} ELSE {"ids"})
   \cup (IF \A w \in ownk : End(st.obj[w[1]], w[2]).store = "local"
                /\ ToSet(ob.k[w[1]][w[2]]) = ToSet(st.k[w[1]][w[2]])
                => ob.k[w[1]][w[2]] = st.k[w[1]][w[2]] THEN {} ELSE {"ids-order"})
   \cup (IF \A o \in objs : \A f \in ends(o) : ToSet(ob.pool[o][f]) = st.pool[o][f]
         THEN {} ELSE {"pool"})
   \cup (IF \A o, p \in objs : st.grp[o] = st.grp[p] => <<o, p>> \in same
         THEN {} ELSE {"graph"})
   \cup (IF ToSet(ob.self) = objs THEN {} ELSE {"graph-self"})
   \cup (IF st.must \subseteq mod /\ \A m \in st.must : m[1] \in ToSet(ob.ismod)
         THEN {} ELSE {"unreported"})
   \cup (IF st.pers \/ (mod = {} /\ ToSet(ob.ismod) = {}) THEN {} ELSE {"new-reported"})
Adopt(st, ob) ==
    IF st.dead THEN st ELSE
    [st EXCEPT
       !.v = [o \in Obj(st) |-> [f \in EndNames(st.obj[o]) |->
                IF ToSet(ob.v[o][f]) = ToSet(st.v[o][f]) /\ Len(ob.v[o][f]) = Len(st.v[o][f])
                THEN ob.v[o][f] ELSE st.v[o][f]]],
       !.k = [o \in Obj(st) |-> [f \in EndNames(st.obj[o]) |->
                IF ToSet(ob.k[o][f]) = ToSet(st.k[o][f]) /\ Len(ob.k[o][f]) = Len(st.k[o][f])
                THEN ob.k[o][f] ELSE st.k[o][f]]]]
=============================================================================
