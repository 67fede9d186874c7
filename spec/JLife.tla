-------------------------------- MODULE JLife --------------------------------
(* Saving, deleting and reading objects: permission checks, callbacks,       *)
(* validation, on-save transformations, the write, unlinked objects.         *)
(*                                                                           *)
(* Class configuration C[c]:                                                 *)
(*   cc, cu, cd, cr  checks [id, ok (operators accepted), how]               *)
(*   oc, ou, od      callbacks [id, two (takes the operator), boom (operators*)
(*                   for which it raises)]                                   *)
(*   fc, fu, fr      checks of field f on create, update, read               *)
(*   cap             the on-save transformation of s fails above this value  *)
(* Objects: [c, new, mod, v, s, f, up, downs, sub, pool, op, part]           *)
(*   v must be >= 0 and its writes are reported, m may not fall below its    *)
(*   stored value pm (-1: unchanged since stored) and its updates are        *)
(*   reported, s is raised by one on save, up and downs are the two          *)
(*   ends of a relation, sub an embedded object (of class "sub")             *)
(* Every call of a check or callback is logged.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

NoOp == "none"
Mod(W, o, n) == IF W[o].new THEN W ELSE [W EXCEPT ![o].mod = @ \cup {n}]

(* ------------------------- the pool of unlinked objects ------------------- *)
(* pool: sequence of <<field, objects>> in the order fields were first used   *)
PIdx(pool, f) == {i \in 1..Len(pool) : pool[i][1] = f}
Touch(pool, f) == IF PIdx(pool, f) = {} THEN Append(pool, <<f, <<>>>>) ELSE pool
PoolOf(pool, f) == IF PIdx(pool, f) = {} THEN <<>> ELSE pool[CHOOSE i \in PIdx(pool, f) : TRUE][2]
PSet(pool, f, s) == [i \in 1..Len(Touch(pool, f)) |->
                       IF Touch(pool, f)[i][1] = f THEN <<f, s>> ELSE Touch(pool, f)[i]]
PAdd(W, o, f, p) == [W EXCEPT ![o].pool = PSet(@, f, LET s == PoolOf(@, f)
                                                     IN IF p \in ToSet(s) THEN s ELSE Append(s, p))]
PDel(W, o, f, p) == [W EXCEPT ![o].pool = PSet(@, f, SelectSeq(PoolOf(@, f), LAMBDA x : x # p))]

(* ------------------------------- the relation ----------------------------- *)
Cut(W, o) ==        \* o leaves its up
    LET p == W[o].up
        A == PAdd(PAdd(W, o, "up", p), p, "downs", o)
    IN Mod(Mod([A EXCEPT ![o].up = 0, ![p].downs = SelectSeq(@, LAMBDA x : x # o)], o, "up"), p, "downs")
Join(W, o, p) ==
    LET A == PDel(PDel(W, o, "up", p), p, "downs", o)
    IN Mod(Mod([A EXCEPT ![o].up = p, ![p].downs = Append(@, o)], o, "up"), p, "downs")
SetUp(W, o, p) ==
    IF W[o].up = p THEN W
    ELSE LET A == IF W[o].up = 0 THEN W ELSE Cut(W, o)
             B == Mod(A, o, "up")
         IN IF p = 0 THEN B ELSE Join(B, o, p)

(* --------------------------------- checks --------------------------------- *)
R(W) == [W |-> W, log |-> <<>>, out |-> <<"ok">>]
Ok(r) == r.out = <<"ok">>
Log(r, e) == [r EXCEPT !.log = Append(@, e)]
Fail(r, k) == [r EXCEPT !.out = <<"exc", k>>]
Guard(r, o, chks, act) ==
    IF chks = <<>> THEN r
    ELSE IF r.W[o].op = NoOp THEN Fail(r, "Unauthorized")
    ELSE FoldSeq(LAMBDA c, q : IF ~Ok(q) THEN q
                               ELSE LET l == Log(q, <<"can", act, c.id, o, r.W[o].op>>)
                                    IN IF r.W[o].op \in ToSet(c.ok) THEN l ELSE Fail(l, "Unauthorized"),
                 r, chks)
Calls(r, o, cbs, act) ==
    FoldSeq(LAMBDA c, q : IF ~Ok(q) THEN q
                          ELSE LET l == Log(q, <<"on", act, c.id, o, IF c.two THEN r.W[o].op ELSE "">>)
                               IN IF r.W[o].op \in ToSet(c.boom) THEN Fail(l, "Boom") ELSE l,
            r, cbs)

(* ------------------------------- validation ------------------------------- *)
RECURSIVE Reach(_, _)
Near(W, o) == (IF W[o].up = 0 THEN {} ELSE {W[o].up}) \cup ToSet(W[o].downs)
              \cup (IF W[o].sub # 0 /\ (W[o].new \/ "sub" \in W[o].mod) THEN {W[o].sub} ELSE {})
Reach(W, X) == LET Y == X \cup UNION {Near(W, o) : o \in X} IN IF Y = X THEN X ELSE Reach(W, Y)
FieldAllowed(chks, by) == chks = <<>> \/ (by # NoOp /\ \A i \in 1..Len(chks) : by \in ToSet(chks[i].ok))
ObjOk(C, W, o, by) ==
    /\ W[o].new \/ "v" \in W[o].mod => W[o].v >= 0
    /\ W[o].pm # -1 => W[o].m >= W[o].pm
    /\ W[o].new => FieldAllowed(C[W[o].c].fc, by)
    /\ (~W[o].new /\ "f" \in W[o].mod) => FieldAllowed(C[W[o].c].fu, by)
Valid(C, W, root) == \A o \in Reach(W, {root}) : ObjOk(C, W, o, W[root].op)

(* --------------------------------- presave -------------------------------- *)
(* r: additionally seen. Fields in the order v, s, f, up, downs, sub.         *)
RECURSIVE Pre(_, _, _)
Pre(C, r, o) ==
    IF ~Ok(r) \/ o \in r.seen THEN r
    ELSE LET a == [r EXCEPT !.seen = @ \cup {o}]
             due == a.W[o].new \/ a.W[o].mod # {}
             b == IF ~due THEN a
                  ELSE LET w == IF a.W[o].c # "sub" /\ (a.W[o].new \/ "v" \in a.W[o].mod) THEN Log(a, <<"wr", o, a.W[o].v>>) ELSE a
                           u == IF a.W[o].pm # -1 THEN Log(w, <<"upd", o, a.W[o].pm, a.W[o].m>>) ELSE w
                           l == Log(u, <<"ss", o, a.W[o].s>>)
                           s2 == a.W[o].s + 1
                       IN IF s2 > C[a.W[o].c].cap THEN [Fail(l, "Validation") EXCEPT !.W = Mod([@ EXCEPT ![o].s = s2], o, "s")]
                          ELSE [l EXCEPT !.W = Mod([@ EXCEPT ![o].s = s2], o, "s")]
             c == IF Ok(b) /\ b.W[o].up # 0 THEN Pre(C, b, b.W[o].up) ELSE b
             d == IF Ok(c) THEN FoldSeq(LAMBDA x, q : Pre(C, q, x), c, c.W[o].downs) ELSE c
         IN IF Ok(d) /\ d.W[o].sub # 0 THEN Pre(C, d, d.W[o].sub) ELSE d

(* ----------------------------------- save ---------------------------------- *)
RECURSIVE Save(_, _, _, _, _), Flush(_, _, _, _, _)
Write(r, o, bad) ==
    LET l == Log(r, <<"write", o>>)
    IN IF o \in bad THEN Fail(l, "Boom")
       ELSE [l EXCEPT !.W[o] = [@ EXCEPT !.new = FALSE, !.mod = {}, !.pm = -1]]
Save(C, r, o, skip, bad) ==
    LET c == r.W[o].c
        fresh == r.W[o].new
        g == Guard(r, o, IF fresh THEN C[c].cc ELSE C[c].cu, IF fresh THEN "create" ELSE "update")
        k == IF Ok(g) THEN Calls(g, o, IF fresh THEN C[c].oc ELSE C[c].ou, IF fresh THEN "create" ELSE "update") ELSE g
        v == IF ~Ok(k) \/ skip \/ Valid(C, k.W, o) THEN k ELSE Fail(k, "Validation")
        p == IF Ok(v) THEN LET q == Pre(C, [W |-> v.W, log |-> v.log, out |-> v.out, seen |-> {}], o)
                           IN [W |-> q.W, log |-> q.log, out |-> q.out] ELSE v
        w == IF Ok(p) THEN Write(p, o, bad) ELSE p
    IN IF Ok(w) THEN Flush(C, w, o, skip, bad) ELSE w
(* the objects that left, in the order they left, field by field             *)
Flush(C, r, o, skip, bad) ==
    LET is == {i \in 1..Len(r.W[o].pool) : r.W[o].pool[i][2] # <<>>}
    IN IF ~Ok(r) \/ is = {} THEN r
       ELSE LET i == CHOOSE j \in is : \A k \in is : j <= k
                x == Head(r.W[o].pool[i][2])
                q == [r EXCEPT !.W[o].pool[i][2] = Tail(@)]
            IN Flush(C, Save(C, q, x, skip, bad), o, skip, bad)

(* ----------------------------------- steps --------------------------------- *)
NewObj(c, v, sub) == [c |-> c, new |-> TRUE, mod |-> {}, v |-> v, s |-> 0, f |-> 0, m |-> 0, pm |-> -1, up |-> 0, downs |-> <<>>,
                      sub |-> sub, pool |-> <<>>, op |-> NoOp, part |-> FALSE]
SubCfg == [cc |-> <<>>, cu |-> <<>>, cd |-> <<>>, cr |-> <<>>, oc |-> <<>>, ou |-> <<>>, od |-> <<>>,
           fc |-> <<>>, fu |-> <<>>, fr |-> <<>>, cap |-> 1000]
Step(C0, W, op) ==
    LET C == C0 @@ ("sub" :> SubCfg)
    IN CASE op.name = "new" ->
              IF op.sub THEN R(Append(Append(W, NewObj("sub", op.subv, 0)), NewObj(op.c, op.v, Len(W) + 1)))
              ELSE R(Append(W, NewObj(op.c, op.v, 0)))
         [] op.name = "opby" -> R([W EXCEPT ![op.o].op = op.by])
         [] op.name = "setv" -> R(IF W[op.o].v = op.v THEN W ELSE Mod([W EXCEPT ![op.o].v = op.v], op.o, "v"))
         [] op.name = "setf" -> R(IF W[op.o].f = op.v THEN W ELSE Mod([W EXCEPT ![op.o].f = op.v], op.o, "f"))
         [] op.name = "setm" -> R(IF W[op.o].m = op.v THEN W
                                   ELSE Mod([W EXCEPT ![op.o].m = op.v, ![op.o].pm = IF @ = -1 /\ ~W[op.o].new THEN W[op.o].m ELSE @], op.o, "m"))
         [] op.name = "subv" -> LET x == W[op.o].sub IN R(IF W[x].v = op.v THEN W ELSE Mod([W EXCEPT ![x].v = op.v], x, "v"))
         [] op.name = "up" -> R(SetUp(W, op.o, op.p))
         [] op.name = "drop" -> R(Cut(W, op.o))             \* op.o.up.downs.remove(op.o)
         [] op.name = "store" -> R([W EXCEPT ![op.o].new = FALSE, ![op.o].mod = {}, ![op.o].pm = -1])
         [] op.name = "pick" -> R([W EXCEPT ![op.o].part = TRUE])
         [] op.name = "complete" ->                         \* fetched values are no modification
              IF ~W[op.o].part THEN R(W)
              ELSE Log(R([W EXCEPT ![op.o].v = op.v]), <<"complete", op.o>>)
         [] op.name = "restore" -> Log(R(W), <<"restore", op.o>>)
         [] op.name = "validate" -> IF Valid(C, W, op.o) THEN R(W) ELSE Fail(R(W), "Validation")
         [] op.name = "save" -> Save(C, R(W), op.o, op.skip, ToSet(op.bad))
         [] op.name = "delete" ->
              LET g == Guard(R(W), op.o, C[W[op.o].c].cd, "delete")
                  k == IF Ok(g) THEN Calls(g, op.o, C[W[op.o].c].od, "delete") ELSE g
                  d == IF Ok(k) THEN Log(k, <<"delete", op.o>>) ELSE k
              IN IF Ok(d) /\ op.o \in ToSet(op.bad) THEN Fail(d, "Boom") ELSE d
         [] op.name = "json" ->
              LET g == Guard(R(W), op.o, C[W[op.o].c].cr, "read")
              IN IF ~Ok(g) THEN g
                 ELSE [g EXCEPT !.out = <<"json", IF FieldAllowed(C[W[op.o].c].fr, W[op.o].op) THEN W[op.o].f ELSE -1,
                                          W[op.o].v>>]
Able(W, op) ==
    CASE op.name = "new" -> TRUE
      [] op.name = "up" -> W[op.o].c # "sub" /\ (op.p = 0 \/ W[op.p].c # "sub")
      [] op.name = "drop" -> W[op.o].up # 0
      [] op.name = "subv" -> W[op.o].sub # 0
      [] op.name = "json" -> ~W[op.o].part
      [] OTHER -> TRUE
=============================================================================
