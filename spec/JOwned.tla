------------------------------- MODULE JOwned -------------------------------
(* Containers held by an object, and what the object knows about its changes.

   An object has data fields.  A list or a dict stored in a field, at any
   depth, is an *owned* container: it must behave exactly like the builtin
   container and in addition report every change to the object.

   State of one object:
     new    not persisted yet
     rst    whether the class keeps previous values of every field
     f      field -> value (owned: containers carry the path they were
            attached under)
     base   field -> plain value at the last moment the object was in step
            with the store (meaningful when ~new)
     must   key paths that have to be reported as modified
     may    fields about which the object may say "modified" although their
            content did not change (in-place operations without effect)

   One public call on a field / container is one transition: Step(st, op).  *)
EXTENDS JValues

Fields == {"l", "d", "x", "t"}
TempFields == {"t"}

KP(base, k) == base \o "." \o k

(* Take ownership of a plain value under path kp: a deep copy.              *)
RECURSIVE Own(_, _)
Own(v, kp) ==
    CASE IsList(v) -> <<"list", [i \in 1..Len(v[2]) |->
                          Own(v[2][i], KP(kp, ToString(i - 1)))], kp>>
      [] IsDict(v) -> <<"dict", [i \in 1..Len(v[2]) |->
                          <<v[2][i][1], Own(v[2][i][2], KP(kp, v[2][i][1]))>>], kp>>
      [] OTHER -> v

(* -- addressing: a path is a sequence of <<"i",n>> / <<"k",s>> ------------ *)
StepName(p) == IF p[1] = "i" THEN ToString(p[2]) ELSE p[2]
HasStep(v, p) == IF p[1] = "i"
                 THEN IsList(v) /\ p[2] \in 0..(Len(v[2]) - 1)
                 ELSE IsDict(v) /\ DHas(v[2], p[2])
Child(v, p) == IF p[1] = "i" THEN v[2][p[2] + 1] ELSE DGet(v[2], p[2])
SetChild(v, p, c) ==
    IF p[1] = "i" THEN [v EXCEPT ![2][p[2] + 1] = c]
    ELSE [v EXCEPT ![2][DIdx(v[2], p[2])] = <<p[2], c>>]

RECURSIVE HasPath(_, _)
HasPath(v, path) == IF path = <<>> THEN TRUE
                    ELSE HasStep(v, path[1]) /\ HasPath(Child(v, path[1]), Tail(path))
RECURSIVE GetPath(_, _)
GetPath(v, path) == IF path = <<>> THEN v ELSE GetPath(Child(v, path[1]), Tail(path))
RECURSIVE PutPath(_, _, _)
PutPath(v, path, c) == IF path = <<>> THEN c
                       ELSE SetChild(v, path[1], PutPath(Child(v, path[1]), Tail(path), c))
RECURSIVE PathStr(_, _)
PathStr(f, path) == IF path = <<>> THEN f
                    ELSE PathStr(KP(f, StepName(path[1])), Tail(path))

(* -- Python sequence semantics ------------------------------------------- *)
Norm(i, n) == IF i < 0 THEN i + n ELSE i
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i

(* slice(start, stop, step).indices(n), each bound <<"none">> or <<"int",k>> *)
SStep(s) == IF IsNone(s[3]) THEN 1 ELSE s[3][2]
SBound(b, dflt, n, lo, hi) ==
    IF IsNone(b) THEN dflt
    ELSE IF b[2] < 0 THEN (IF b[2] + n < lo THEN lo ELSE b[2] + n)
         ELSE (IF b[2] > hi THEN hi ELSE b[2])
SStart(s, n) == IF SStep(s) > 0 THEN SBound(s[1], 0, n, 0, n)
                ELSE SBound(s[1], n - 1, n, -1, n - 1)
SStop(s, n) == IF SStep(s) > 0 THEN SBound(s[2], n, n, 0, n)
               ELSE SBound(s[2], -1, n, -1, n - 1)
RECURSIVE Walk(_, _, _)
Walk(a, b, k) == IF (k > 0 /\ a >= b) \/ (k < 0 /\ a <= b) THEN <<>>
                 ELSE <<a>> \o Walk(a + k, b, k)
SIdx(s, n) == Walk(SStart(s, n), SStop(s, n), SStep(s))

RECURSIVE InsSort(_, _)
InsSort(s, v) == IF s = <<>> THEN <<v>>
                 ELSE IF v[2] < s[1][2] THEN <<v>> \o s
                 ELSE <<s[1]>> \o InsSort(Tail(s), v)
RECURSIVE SortInts(_)
SortInts(s) == IF s = <<>> THEN <<>> ELSE InsSort(SortInts(Tail(s)), s[1])

(* Result of an operation on a container's content:
   ok/exc, new content, returned value.  New elements are marked <<"new",v>>
   so that the caller can attach them under their final position.           *)
Ok(c, r) == [exc |-> "", c |-> c, ret |-> r]
Exc(e, c) == [exc |-> e, c |-> c, ret |-> None]
N(v) == <<"new", v>>
NAll(vs) == [i \in 1..Len(vs) |-> N(vs[i])]

FirstEq(c, v) == LET P == {i \in 1..Len(c) : PyEq(c[i], v)}
                 IN IF P = {} THEN 0 ELSE Min(P)

(* In-place repetition keeps the existing elements and adds copies.         *)
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN <<>> ELSE c \o Repeat(c, n - 1)

ListOp(op, c) ==
    LET n == Len(c)
        name == op.name
    IN CASE name = "append" -> Ok(Append(c, N(op.v)), None)
         [] name \in {"extend", "iadd", "extend_gen", "iadd_gen", "extend_tuple"} ->
                Ok(c \o NAll(op.vs), None)
         [] name = "extend_self" -> Ok(c \o NAll(c), None)
         [] name = "insert" ->
                LET k == IF op.i < 0 THEN Clamp(op.i + n, 0, n) ELSE Clamp(op.i, 0, n)
                IN Ok(SubSeq(c, 1, k) \o <<N(op.v)>> \o SubSeq(c, k + 1, n), None)
         [] name = "remove" ->
                LET k == FirstEq(c, op.v)
                IN IF k = 0 THEN Exc("ValueError", c) ELSE Ok(Without(c, {k}), None)
         [] name = "pop" ->
                LET k == Norm(op.i, n)
                IN IF k \notin 0..(n - 1) THEN Exc("IndexError", c)
                   ELSE Ok(Without(c, {k + 1}), c[k + 1])
         [] name = "pop0" -> IF n = 0 THEN Exc("IndexError", c)
                             ELSE Ok(SubSeq(c, 1, n - 1), c[n])
         [] name = "clear" -> Ok(<<>>, None)
         [] name = "reverse" -> Ok([i \in 1..n |-> c[n + 1 - i]], None)
         [] name = "sort" ->
                LET up == SortInts(c)
                IN Ok(IF op.i = 0 THEN up ELSE [i \in 1..n |-> up[n + 1 - i]], None)
         [] name = "imul" ->
                IF op.i <= 0 THEN Ok(<<>>, None)
                ELSE Ok(c \o NAll(Repeat(c, op.i - 1)), None)
         [] name = "setitem" ->
                LET k == Norm(op.i, n)
                IN IF k \notin 0..(n - 1) THEN Exc("IndexError", c)
                   ELSE Ok([c EXCEPT ![k + 1] = N(op.v)], None)
         [] name = "delitem" ->
                LET k == Norm(op.i, n)
                IN IF k \notin 0..(n - 1) THEN Exc("IndexError", c)
                   ELSE Ok(Without(c, {k + 1}), None)
         [] name = "setslice" ->
                IF SStep(op.s) = 1
                THEN LET a == SStart(op.s, n)
                         b == IF SStop(op.s, n) < a THEN a ELSE SStop(op.s, n)
                     IN Ok(SubSeq(c, 1, a) \o NAll(op.vs) \o SubSeq(c, b + 1, n), None)
                ELSE LET ix == SIdx(op.s, n)
                     IN IF Len(ix) # Len(op.vs) THEN Exc("ValueError", c)
                        ELSE Ok([p \in 1..n |->
                                   IF \E j \in 1..Len(ix) : ix[j] = p - 1
                                   THEN N(op.vs[CHOOSE j \in 1..Len(ix) : ix[j] = p - 1])
                                   ELSE c[p]], None)
         [] name = "delslice" ->
                LET ix == SIdx(op.s, n)
                IN Ok(Without(c, {ix[j] + 1 : j \in 1..Len(ix)}), None)
         \* reads: no effect whatsoever
         [] name = "getitem" ->
                LET k == Norm(op.i, n)
                IN IF k \notin 0..(n - 1) THEN Exc("IndexError", c) ELSE Ok(c, c[k + 1])
         [] name = "getslice" ->
                LET ix == SIdx(op.s, n)
                IN Ok(c, <<"list", [j \in 1..Len(ix) |-> c[ix[j] + 1]]>>)
         [] name = "add" -> Ok(c, <<"list", c \o op.vs>>)
         [] name = "mul" -> Ok(c, <<"list", Repeat(c, op.i)>>)
         [] name = "copy" -> Ok(c, <<"list", c>>)
         [] name = "len" -> Ok(c, I(n))
         [] name = "contains" -> Ok(c, B(FirstEq(c, op.v) # 0))
         [] name = "count" -> Ok(c, I(Cardinality({i \in 1..n : PyEq(c[i], op.v)})))
         [] name = "index" -> LET k == FirstEq(c, op.v)
                              IN IF k = 0 THEN Exc("ValueError", c) ELSE Ok(c, I(k - 1))

NPairs(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], N(ps[i][2])>>]

DictOp(op, c) ==
    LET n == Len(c)
        name == op.name
    IN CASE name = "dset" -> Ok(DPut(c, op.k, N(op.v)), None)
         [] name = "ddel" -> IF DHas(c, op.k) THEN Ok(DDel(c, op.k), None)
                             ELSE Exc("KeyError", c)
         [] name = "dpop" -> IF DHas(c, op.k) THEN Ok(DDel(c, op.k), DGet(c, op.k))
                             ELSE Exc("KeyError", c)
         [] name = "dpopd" -> IF DHas(c, op.k) THEN Ok(DDel(c, op.k), DGet(c, op.k))
                              ELSE Ok(c, op.v)
         [] name = "dpopitem" -> IF n = 0 THEN Exc("KeyError", c)
                                 ELSE Ok(SubSeq(c, 1, n - 1),
                                         <<"list", <<S(c[n][1]), c[n][2]>>>>)
         [] name = "dclear" -> Ok(<<>>, None)
         [] name = "dsetdefault" -> IF DHas(c, op.k) THEN Ok(c, DGet(c, op.k))
                                    ELSE Ok(DPut(c, op.k, N(op.v)), op.v)
         [] name = "dsetdefault1" -> IF DHas(c, op.k) THEN Ok(c, DGet(c, op.k))
                                     ELSE Ok(DPut(c, op.k, N(None)), None)
         [] name \in {"dupdate", "dupdate_pairs", "dupdate_kw", "dior", "dior_pairs"} ->
                Ok(DPutAll(c, NPairs(op.ps)), None)
         \* reads
         [] name = "dget" -> Ok(c, IF DHas(c, op.k) THEN DGet(c, op.k) ELSE None)
         [] name = "dgetitem" -> IF DHas(c, op.k) THEN Ok(c, DGet(c, op.k))
                                 ELSE Exc("KeyError", c)
         [] name = "dcontains" -> Ok(c, B(DHas(c, op.k)))
         [] name = "dlen" -> Ok(c, I(n))
         [] name = "dkeys" -> Ok(c, <<"list", [i \in 1..n |-> S(c[i][1])]>>)
         [] name = "dvalues" -> Ok(c, <<"list", [i \in 1..n |-> c[i][2]]>>)
         [] name = "dor" -> Ok(c, <<"dict", DPutAll(c, op.ps)>>)
         [] name = "dcopy" -> Ok(c, <<"dict", c>>)

ListOpNames == {"append", "extend", "extend_gen", "extend_tuple", "extend_self",
    "iadd", "iadd_gen", "insert", "remove", "pop", "pop0", "clear", "reverse",
    "sort", "imul", "setitem", "delitem", "setslice", "delslice", "getitem",
    "getslice", "add", "mul", "copy", "len", "contains", "count", "index"}
DictOpNames == {"dset", "ddel", "dpop", "dpopd", "dpopitem", "dclear",
    "dsetdefault", "dsetdefault1", "dupdate", "dupdate_pairs", "dupdate_kw",
    "dior", "dior_pairs", "dget", "dgetitem", "dcontains", "dlen", "dkeys",
    "dvalues", "dor", "dcopy"}
ReadNames == {"getitem", "getslice", "add", "mul", "copy", "len", "contains",
    "count", "index", "dget", "dgetitem", "dcontains", "dlen", "dkeys",
    "dvalues", "dor", "dcopy"}
ObjOpNames == {"assign", "set", "update", "swap", "mark", "renew", "reset", "tojson"}

(* Attach the elements an operation introduced under their final position.  *)
Attach(v, kp) == IF v[1] = "new" THEN Own(Plain(v[2]), kp) ELSE v
AttachList(c, kp) == [i \in 1..Len(c) |-> Attach(c[i], KP(kp, ToString(i - 1)))]
AttachDict(c, kp) == [i \in 1..Len(c) |-> <<c[i][1], Attach(c[i][2], KP(kp, c[i][1]))>>]

R(st, out) == [st |-> st, out |-> out]

(* An operation on the container at st.f[op.f] / op.path.                   *)
ContainerStep(st, op) ==
    LET root == st.f[op.f]
        con == GetPath(root, op.path)
        res == IF IsList(con) THEN ListOp(op, con[2]) ELSE DictOp(op, con[2])
        now == PathStr(op.f, op.path)
        newc == IF IsList(con) THEN <<"list", AttachList(res.c, con[3]), con[3]>>
                ELSE <<"dict", AttachDict(res.c, con[3]), con[3]>>
        changed == Plain(newc) # Plain(con)
        st2 == [st EXCEPT !.f[op.f] = PutPath(root, op.path, newc)]
        \* the stored path is exact unless elements were shifted meanwhile
        entry == IF con[3] = now THEN {<<op.f, now>>} ELSE {<<op.f, "*">>}
    IN IF res.exc # "" THEN R(st, <<"exc", res.exc>>)
       ELSE IF op.name \in ReadNames THEN R(st, <<"ok", Plain(res.ret)>>)
       ELSE R(IF st.new THEN st2
              ELSE IF changed THEN [st2 EXCEPT !.must = @ \cup entry]
              ELSE [st2 EXCEPT !.may = @ \cup {op.f}],
              <<"ok", Plain(res.ret)>>)

(* Assigning a field: nothing happens when the value is equal.              *)
AssignStep(st, op) ==
    IF PyEq(Plain(st.f[op.f]), op.v) THEN R(st, <<"ok", None>>)
    ELSE LET st2 == [st EXCEPT !.f[op.f] = Own(op.v, op.f)]
         IN R(IF st.new THEN st2 ELSE [st2 EXCEPT !.must = @ \cup {<<op.f, op.f>>}],
              <<"ok", None>>)

(* Replacing a container and then changing the one that was replaced: the
   replaced one is no longer part of the object.                            *)
SwapStep(st, op) ==
    LET r == AssignStep(st, op)
    IN R(IF st.new THEN r.st ELSE [r.st EXCEPT !.may = @ \cup {op.f}], r.out)

Snapshot(st) == [x \in Fields |-> Plain(st.f[x])]
Clean(st) == [st EXCEPT !.must = {}, !.may = {}]

ObjStep(st, op) ==
    CASE op.name \in {"assign", "set", "update"} -> AssignStep(st, op)
      [] op.name = "swap" -> SwapStep(st, op)
      [] op.name = "mark" ->
             R([Clean(st) EXCEPT !.new = FALSE, !.base = Snapshot(st)], <<"ok", None>>)
      [] op.name = "renew" -> R([Clean(st) EXCEPT !.new = TRUE], <<"ok", None>>)
      [] op.name = "reset" ->
             IF ~st.rst THEN R(st, <<"exc", "JSONClassResetNotEnabledError">>)
             ELSE IF st.new THEN R(st, <<"exc", "JSONClassResetError">>)
             ELSE R([Clean(st) EXCEPT !.f = [x \in Fields |->
                       IF PyEq(Plain(st.f[x]), st.base[x]) THEN st.f[x]
                       ELSE Own(st.base[x], x)]],
                    <<"ok", None>>)

Step(st, op) == IF op.name \in ObjOpNames THEN ObjStep(st, op) ELSE ContainerStep(st, op)

(* Is the operation meaningful in this state?                               *)
AllInts(c) == \A i \in 1..Len(c) : c[i][1] = "int"
Applicable(st, op) ==
    IF op.name = "swap" THEN IsList(st.f[op.f]) /\ ~PyEq(Plain(st.f[op.f]), op.v)
    ELSE IF op.name \in ObjOpNames THEN TRUE
    ELSE /\ HasPath(st.f[op.f], op.path)
         /\ LET con == GetPath(st.f[op.f], op.path)
            IN \/ IsList(con) /\ op.name \in ListOpNames
                  /\ (op.name = "sort" => AllInts(con[2]))
               \/ IsDict(con) /\ op.name \in DictOpNames

InitSt(new, rst, f) ==
    LET own == [x \in Fields |-> Own(f[x], x)]
    IN [new |-> new, rst |-> rst, f |-> own, base |-> f, must |-> {}, may |-> {}]

(* ---------------- observable projection and its check -------------------- *)
(* o: [f, mod (pairs <<field, path>>), pmod, ismod, new, prev (pairs)]      *)
MustFields(st) == {e[1] : e \in st.must}
Wild(st) == {e[1] : e \in {m \in st.must : m[2] = "*"}} \cup st.may
Changed(st) == {x \in Fields : Plain(st.f[x]) # st.base[x]}

ObsFaults(st, o) ==
    LET mod == ToSet(o.mod)
        pmod == ToSet(o.pmod)
        mf == {e[1] : e \in mod}
        prevF == {o.prev[i][1] : i \in 1..Len(o.prev)}
        prevOf(x) == (CHOOSE i \in 1..Len(o.prev) : o.prev[i][1] = x)
    IN  (IF \A x \in Fields : o.f[x] = Plain(st.f[x]) THEN {} ELSE {"value"})
   \cup (IF o.new = st.new THEN {} ELSE {"is_new"})
   \cup (IF \A e \in st.must : IF e[2] = "*" THEN e[1] \in mf ELSE e \in mod
         THEN {} ELSE {"modified-missing"})
   \cup (IF \A e \in mod : e \in st.must \/ e[1] \in Wild(st)
         THEN {} ELSE {"modified-spurious"})
   \cup (IF o.ismod = (mod # {}) THEN {} ELSE {"is_modified"})
   \cup (IF pmod = {e \in mod : e[1] \notin TempFields} THEN {} ELSE {"persisted-modified"})
   \cup (IF st.new \/ ~st.rst \/ MustFields(st) \subseteq prevF
         THEN {} ELSE {"previous-missing"})
   \cup (IF st.new \/ \A x \in prevF : o.prev[prevOf(x)][2] = st.base[x]
         THEN {} ELSE {"previous-wrong"})
   \cup (IF st.rst \/ prevF = {} THEN {} ELSE {"previous-unasked"})

(* --------------------------- properties ---------------------------------- *)
\* every container is attached under its own field
RECURSIVE KPFields(_, _)
KPFields(v, x) ==
    IsContainer(v) =>
      /\ v[3] = x \/ \E k \in 1..Len(v[3]) : TRUE
      /\ \A i \in 1..Len(v[2]) :
            KPFields(IF IsList(v) THEN v[2][i] ELSE v[2][i][2], x)

\* C07: an object in step with the store reports nothing, and any difference
\* from the store is reported.
InvTracking(st) == /\ st.new => st.must = {} /\ st.may = {}
                   /\ ~st.new => Changed(st) \subseteq MustFields(st)
\* C08: resetting restores the persisted content and clears the marks.
InvReset(st) ==
    (st.rst /\ ~st.new) =>
       LET r == Step(st, [name |-> "reset", f |-> "x"]).st
       IN /\ \A x \in Fields : PyEq(Plain(r.f[x]), st.base[x])
          /\ r.must = {} /\ r.may = {}
\* C06: failed operations and reads leave everything alone (action property)
ActUnchanged(st, op, out, st2) ==
    (out[1] = "exc" \/ op.name \in ReadNames) => st2 = st
=============================================================================
