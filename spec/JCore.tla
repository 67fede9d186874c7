-------------------------------- MODULE JCore --------------------------------
(* Objects taking input, being assigned, validated and turned into JSON.

   Schema (data, carried in the world as W.S):  class -> [strict, onull, allf, pk,
   fields: sequence of
     [n (name), j (JSON name), w ("rw"/"ro"/"once"/"nonnull"), r (readable),
      st ("data"/"temp"/"local"/"foreign"), t (type), pdef (python default),
      idk / jidk (reference id key and its JSON name, "local" only),
      opp (name of the opposite field, "" if none)]]
   Type: [k ("int","str","bool","any","date","datetime","enum","list","dict","obj"),
      req, nn (null becomes empty), lo (least int), hi (most items of a list), def (replaces null),
      item (type), cls, sx ("", "strict", "unstrict"), ms (enum members:
      <<member, input form, output form>>)]

   World W = [S, D (date strings), h (heap: sequence of objects), mg (identity map
   of the running input: set of <<class, id, oid>>), val, exc].
   Object = [c, f: field -> value, k: field -> stored id(s), new, mod, picks].  *)
EXTENDS JValues

Null == None
O(o) == <<"o", o>>
IsO(v) == Tag(v) = "o"
NoExc == <<>>

FieldsOf(W, c) == W.S[c].fields
FNames(W, c) == {FieldsOf(W, c)[i].n : i \in 1..Len(FieldsOf(W, c))}
Fld(W, c, n) == LET fs == FieldsOf(W, c) IN fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n]
IsRef(fl) == fl.st \in {"local", "foreign"}
Get(pairs, k) == IF DHas(pairs, k) THEN DGet(pairs, k) ELSE Null
Cat(p, k) == IF p = "" THEN k ELSE p \o "." \o k
Ok(W) == W.exc = NoExc
Fail(W, e, ks) == [W EXCEPT !.exc = <<e, ks>>]

(* ------------------------- equality of stored values --------------------- *)
Num(v) == IF Tag(v) = "int" THEN v[2] ELSE IF v[2] THEN 1 ELSE 0
RECURSIVE Eq(_, _, _)
Eq(h, a, b) ==
    CASE Tag(a) \in {"int", "bool"} /\ Tag(b) \in {"int", "bool"} -> Num(a) = Num(b)
      [] Tag(a) # Tag(b) -> FALSE
      [] IsO(a) -> \/ a = b
                   \/ /\ h[a[2]].c = h[b[2]].c
                      /\ \A n \in DOMAIN h[a[2]].f : Eq(h, h[a[2]].f[n], h[b[2]].f[n])
      [] IsList(a) -> /\ Len(a[2]) = Len(b[2])
                      /\ \A i \in 1..Len(a[2]) : Eq(h, a[2][i], b[2][i])
      [] IsDict(a) -> /\ DKeys(a[2]) = DKeys(b[2])
                      /\ \A k \in DKeys(a[2]) : Eq(h, DGet(a[2], k), DGet(b[2], k))
      [] OTHER -> a = b

(* ------------------------------- assignment ------------------------------ *)
Mod(W, o, n) == IF W.h[o].new THEN W ELSE [W EXCEPT !.h[o].mod = @ \cup {n}]
IdOf(W, o) == LET pk == W.S[W.h[o].c].pk IN IF pk = "" THEN Null ELSE W.h[o].f[pk]
Partners(v) == IF IsO(v) THEN <<v[2]>>
               ELSE IF IsList(v) THEN LET s == SelectSeq(v[2], IsO)
                                      IN [i \in 1..Len(s) |-> s[i][2]]
               ELSE <<>>
DropFrom(W, p, g, o) ==          \* p forgets o over its field g
    LET cur == W.h[p].f[g]
    IN IF cur = O(o)
       THEN IF Fld(W, W.h[p].c, g).st = "local"
            THEN Mod([W EXCEPT !.h[p].f[g] = Null, !.h[p].k[g] = Null], p, g)
            ELSE [W EXCEPT !.h[p].f[g] = Null]
       ELSE IF IsList(cur)
       THEN [W EXCEPT !.h[p].f[g] = L(SelectSeq(cur[2], LAMBDA x : x # O(o)))]
       ELSE W

RECURSIVE SetAttr(_, _, _, _)
SetAttr(W, o, fl, v) ==
    LET n == fl.n
        cur == W.h[o].f[n]
    IN IF IF IsRef(fl) THEN v = cur ELSE Eq(W.h, v, cur) THEN W
       ELSE IF ~IsRef(fl) THEN Mod([W EXCEPT !.h[o].f[n] = v], o, n)
       ELSE LET drop(ps) == IF fl.opp = "" THEN W
                            ELSE FoldSeq(LAMBDA p, X : DropFrom(X, p, fl.opp, o), W, ps)
                W1 == [drop(Partners(cur)) EXCEPT !.h[o].f[n] = v]
                ids == [i \in 1..Len(Partners(v)) |-> IdOf(W1, Partners(v)[i])]
                k == IF fl.t.k = "list" THEN L(ids)
                     ELSE IF IsO(v) THEN IdOf(W1, v[2]) ELSE Null
                W2 == Mod(IF fl.st = "local" THEN [W1 EXCEPT !.h[o].k[n] = k] ELSE W1, o, n)
                back(p, X) ==
                    LET g == Fld(X, X.h[p].c, fl.opp)
                        cg == X.h[p].f[fl.opp]
                    IN IF g.t.k = "obj"
                       THEN IF cg = O(o) THEN X ELSE SetAttr(X, p, g, O(o))
                       ELSE IF ~IsList(cg) THEN SetAttr(X, p, g, L(<<O(o)>>))
                       ELSE IF O(o) \in ToSet(cg[2]) THEN X
                       ELSE [X EXCEPT !.h[p].f[fl.opp] = L(Append(cg[2], O(o)))]
            IN IF fl.opp = "" THEN W2 ELSE FoldSeq(back, W2, Partners(v))

SetId(W, o, fl, v) ==            \* the reference id key is assigned
    LET n == fl.n
        cur == W.h[o].f[n]
    IN IF Eq(W.h, v, W.h[o].k[n]) THEN W
       ELSE IF fl.t.k = "obj"
       THEN Mod([SetAttr(W, o, fl, Null) EXCEPT !.h[o].k[n] = v], o, n)
       ELSE LET have(id) == SelectSeq(Partners(cur), LAMBDA p : IdOf(W, p) = id)
                keep == FoldSeq(LAMBDA id, acc : IF have(id) = <<>> THEN acc
                                                 ELSE Append(acc, O(have(id)[1])),
                                <<>>, v[2])
            IN Mod([SetAttr(W, o, fl, L(keep)) EXCEPT !.h[o].k[n] = v], o, n)

(* --------------------------------- input --------------------------------- *)
Empty(t) == IF t.k = "list" THEN L(<<>>) ELSE D(<<>>)
NullIn(t) == IF t.k \in {"list", "dict"} /\ t.nn THEN Empty(t) ELSE t.def
DefaultOf(fl) == IF fl.pdef # Null THEN fl.pdef ELSE NullIn(fl.t)
Blank(W, c) ==
    [W EXCEPT !.h = Append(@,
       [c |-> c, new |-> TRUE, mod |-> {}, picks |-> <<"all">>,
        f |-> [n \in FNames(W, c) |-> Null],
        k |-> [n \in {m \in FNames(W, c) : Fld(W, c, m).st = "local"} |->
                  IF Fld(W, c, n).t.k = "list" THEN L(<<>>) ELSE Null]])]
Allowed(W, c) == UNION {{fl.n, fl.j} \cup (IF fl.st = "local" THEN {fl.idk, fl.jidk} ELSE {})
                        : fl \in ToSet(FieldsOf(W, c))}

IdIn(W, c, pairs) ==       \* the primary key given, under either name
    LET pk == W.S[c].pk
    IN IF pk = "" THEN Null
       ELSE LET a == Get(pairs, Fld(W, c, pk).j) IN IF a = Null THEN Get(pairs, pk) ELSE a

RECURSIVE In(_, _, _, _, _, _), TakeInto(_, _, _, _, _, _, _, _)
(* the value of type t that input v denotes; result in .val                  *)
In(W, t, v, p, fp, fill) ==
    CASE v = Null -> [W EXCEPT !.val = NullIn(t)]
      [] t.k \in {"date", "datetime"} /\ Tag(v) = "str" ->
            IF v[2] \in W.D THEN [W EXCEPT !.val = <<t.k, v[2]>>]
            ELSE Fail(W, "ValidationException", {fp})
      [] t.k = "enum" ->
            LET hit == {m \in ToSet(t.ms) : Eq(<<>>, m[2], v) \/ v = <<"enum", m[1]>>}
            IN IF hit = {} THEN Fail(W, "ValidationException", {fp})
               ELSE [W EXCEPT !.val = <<"enum", (CHOOSE m \in hit : TRUE)[1]>>]
      [] t.k = "list" /\ IsList(v) ->
            LET r == FoldSeq(LAMBDA i, X :
                        IF ~Ok(X.W) THEN X
                        ELSE LET Y == In(X.W, t.item, v[2][i], Cat(p, ToString(i - 1)),
                                         Cat(fp, ToString(i - 1)), fill)
                             IN [W |-> Y, a |-> Append(X.a, Y.val)],
                        [W |-> W, a |-> <<>>], [i \in 1..Len(v[2]) |-> i])
            IN [r.W EXCEPT !.val = L(r.a)]
      [] t.k = "dict" /\ IsDict(v) ->
            LET r == FoldSeq(LAMBDA e, X :
                        IF ~Ok(X.W) THEN X
                        ELSE LET Y == In(X.W, t.item, e[2], Cat(p, e[1]), Cat(fp, e[1]), fill)
                             IN [W |-> Y, a |-> Append(X.a, <<e[1], Y.val>>)],
                        [W |-> W, a |-> <<>>], v[2])
            IN [r.W EXCEPT !.val = D(r.a)]
      [] t.k = "obj" /\ IsDict(v) ->
            LET id == IdIn(W, t.cls, v[2])
                known == {m \in W.mg : m[1] = t.cls /\ m[2] = id}
                soft == id # Null /\ known # {}
                \* a fresh object holds its defaults before the input is applied
                W1 == IF soft THEN W
                      ELSE LET B0 == Blank(W, t.cls)
                           IN [TakeInto(B0, Len(B0.h), <<>>, "", "", TRUE, FALSE, "unstrict")
                               EXCEPT !.mg = IF id = Null THEN W.mg
                                             ELSE W.mg \cup {<<t.cls, id, Len(B0.h)>>}]
                o == IF soft THEN (CHOOSE m \in known : TRUE)[3] ELSE Len(W.h) + 1
                W2 == TakeInto(W1, o, v[2], p, fp, fill, soft, t.sx)
            IN [W2 EXCEPT !.val = O(o)]
      [] OTHER -> [W EXCEPT !.val = v]

(* apply a mapping to the object o; sx: strictness the holding field asks for *)
TakeInto(W, o, pairs, p, fp, fill, soft, sx) ==
    LET c == W.h[o].c
        strict == IF sx = "strict" THEN TRUE ELSE IF sx = "unstrict" THEN FALSE ELSE W.S[c].strict
        unknown == SelectSeq(pairs, LAMBDA e : e[1] \notin Allowed(W, c))
        one(fl, X) ==
          IF ~Ok(X) THEN X
          ELSE IF ~(DHas(pairs, fl.n) \/ DHas(pairs, fl.j))
          THEN IF fl.st = "local"
               THEN LET deny == \/ fl.w = "ro"
                                \/ fl.w = "once" /\ X.h[o].k[fl.n] \notin {Null, L(<<>>)}
                        a == Get(pairs, fl.idk) b == Get(pairs, fl.jidk)
                        X1 == IF deny \/ a = Null THEN X ELSE SetId(X, o, fl, a)
                    IN IF deny \/ b = Null THEN X1 ELSE SetId(X1, o, fl, b)
               ELSE IF IsRef(fl) THEN X
               ELSE IF fill /\ ~soft THEN SetAttr(X, o, fl, DefaultOf(fl)) ELSE X
          ELSE LET a == Get(pairs, fl.j)
                   v == IF a = Null THEN Get(pairs, fl.n) ELSE a
                   deny == \/ fl.w = "ro"
                           \/ fl.w = "once" /\ X.h[o].f[fl.n] # Null
                           \/ fl.w = "nonnull" /\ v = Null
               IN IF deny
                  THEN IF fill /\ ~soft THEN SetAttr(X, o, fl, DefaultOf(fl)) ELSE X
                  ELSE LET Y == In(X, fl.t, v, Cat(p, fl.n), Cat(fp, fl.j), fill)
                       IN IF Ok(Y) THEN SetAttr(Y, o, fl, Y.val) ELSE Y
        lists(fl, X) ==
          IF ~Ok(X) \/ DHas(pairs, fl.n) \/ DHas(pairs, fl.j) THEN X
          ELSE IF IsRef(fl) /\ fl.t.k = "list" /\ fl.t.nn /\ X.h[o].f[fl.n] = Null
          THEN SetAttr(X, o, fl, L(<<>>)) ELSE X
    IN IF strict /\ unknown # <<>>
       THEN Fail(W, "ValidationException", {Cat(p, unknown[1][1])})
       ELSE FoldSeq(lists, FoldSeq(one, W, FieldsOf(W, c)), FieldsOf(W, c))

Top(W, o, pairs, fill) ==
    LET id == IdIn(W, W.h[o].c, pairs)
    IN TakeInto([W EXCEPT !.mg = IF id = Null THEN {} ELSE {<<W.h[o].c, id, o>>}],
                o, pairs, "", "", fill, FALSE, "")

(* key paths: parts is a sequence of strings, key its original spelling      *)
Digits == {ToString(i) : i \in 0..9}
Idx(s) == (CHOOSE i \in 0..9 : ToString(i) = s) + 1
RECURSIVE PathSet(_, _, _, _, _), PutIn(_, _, _, _, _, _)
(* PutIn: [W, v] - the container or object v at type t with the rest set      *)
PutIn(W, o, t, v, parts, x) ==
    IF t.k \notin {"obj", "list", "dict"} THEN [W |-> W, v |-> v]
    ELSE IF v = Null THEN [W |-> Fail(W, "ValueError", {}), v |-> v]
    ELSE IF t.k # Tag(v) /\ ~(t.k = "obj" /\ IsO(v))
    THEN [W |-> Fail(W, "unspecified", {}), v |-> v]     \* nonsense is stored here
    ELSE CASE t.k = "obj" ->
                [W |-> IF Len(parts) = 1 THEN Top(W, v[2], <<<<parts[1], x>>>>, FALSE)
                       ELSE PathSet(W, v[2], parts, x, ""), v |-> v]
           [] t.k = "list" ->
                IF parts[1] \notin Digits THEN [W |-> Fail(W, "ValueError", {}), v |-> v]
                ELSE IF Idx(parts[1]) > Len(v[2]) THEN [W |-> Fail(W, "IndexError", {}), v |-> v]
                ELSE LET i == Idx(parts[1])
                     IN IF Len(parts) = 1 THEN [W |-> W, v |-> L([v[2] EXCEPT ![i] = x])]
                        ELSE LET r == PutIn(W, o, t.item, v[2][i], Tail(parts), x)
                             IN [W |-> r.W, v |-> L([v[2] EXCEPT ![i] = r.v])]
           [] t.k = "dict" ->
                IF Len(parts) = 1 THEN [W |-> W, v |-> D(DPut(v[2], parts[1], x))]
                ELSE IF ~DHas(v[2], parts[1]) THEN [W |-> Fail(W, "KeyError", {}), v |-> v]
                ELSE LET r == PutIn(W, o, t.item, DGet(v[2], parts[1]), Tail(parts), x)
                     IN [W |-> r.W, v |-> D(DPut(v[2], parts[1], r.v))]
PathSet(W, o, parts, x, key) ==
    LET c == W.h[o].c
        hit == SelectSeq(FieldsOf(W, c), LAMBDA fl : parts[1] \in {fl.n, fl.j})
    IN IF hit = <<>>
       THEN IF W.S[c].strict THEN Fail(W, "ValidationException", {"*"}) ELSE W
       ELSE LET fl == hit[1]
                cur == W.h[o].f[fl.n]
            IN IF fl.w = "ro" \/ (fl.w = "once" /\ cur # Null) THEN W
               ELSE LET r == PutIn(W, o, fl.t, cur, Tail(parts), x)
                    IN IF ~Ok(r.W) \/ r.v = cur THEN r.W
                       ELSE Mod([r.W EXCEPT !.h[o].f[fl.n] = r.v], o, fl.n)

RECURSIVE Paths(_, _, _)
Paths(W, o, comp) ==       \* comp: sequence of [parts, v]
    IF comp = <<>> \/ ~Ok(W) THEN W
    ELSE Paths(PathSet(W, o, comp[1].parts, comp[1].v, ""), o, Tail(comp))

(* ---------------------------------- JSON --------------------------------- *)
RECURSIVE JVal(_, _, _, _, _, _), JObj(_, _, _, _, _, _)
Shown(W, o, fl) == W.h[o].picks = <<"all">> \/ fl.n \in ToSet(W.h[o].picks[2])
JVal(W, t, v, path, chain, opt) ==
    CASE v = Null -> Null
      [] Tag(v) \in {"date", "datetime"} -> S(v[2])
      [] Tag(v) = "enum" -> (CHOOSE m \in ToSet(t.ms) : m[1] = v[2])[3]
      [] t.k = "list" /\ IsList(v) ->
            L([i \in 1..Len(v[2]) |-> JVal(W, t.item, v[2][i], Append(path, ToString(i - 1)), chain, opt)])
      [] t.k = "dict" /\ IsDict(v) ->
            D([i \in 1..Len(v[2]) |-> <<v[2][i][1],
                 JVal(W, t.item, v[2][i][2], Append(path, v[2][i][1]), chain, opt)>>])
      [] t.k = "obj" -> JObj(W, v[2], path, chain, opt, "")
      [] OTHER -> v
(* path: names walked so far; chain: classes on the way; references that lead
   back (to the field we came through, or out of a class already on the way)
   are cut.                                                                  *)
JObj(W, o, path, chain, opt, via) ==
    LET c == W.h[o].c
        nulls == IF opt.null = "class" THEN W.S[c].onull ELSE opt.null = "yes"
        again == c \in chain
        one(fl, acc) ==
          LET back == /\ ~opt.rev /\ fl.opp # ""
                      /\ Len(path) > 0
                      /\ \/ path[Len(path)] = fl.opp
                         \/ Len(path) > 1 /\ path[Len(path) - 1] = fl.opp
              seen == (fl.r \/ opt.wo) /\ Shown(W, o, fl)
              acc1 == IF fl.st = "local" /\ seen /\ (nulls \/ W.h[o].k[fl.n] # Null)
                      THEN Append(acc, <<fl.jidk, W.h[o].k[fl.n]>>) ELSE acc
          IN IF ~seen \/ fl.st = "temp" \/ (IsRef(fl) /\ (back \/ again)) THEN acc1
             ELSE LET jv == JVal(W, fl.t, W.h[o].f[fl.n], Append(path, fl.n), chain \cup {c}, opt)
                  IN IF nulls \/ jv # Null THEN Append(acc1, <<fl.j, jv>>) ELSE acc1
    IN D(FoldSeq(one, <<>>, FieldsOf(W, c)))

RECURSIVE Canon(_)
Canon(v) ==
    CASE IsList(v) -> <<"list", [i \in 1..Len(v[2]) |-> Canon(v[2][i])]>>
      [] IsDict(v) -> <<"dict", {<<v[2][i][1], Canon(v[2][i][2])>> : i \in 1..Len(v[2])}>>
      [] OTHER -> v

(* values that a field of its type can hold without nonsense in object places *)
RECURSIVE SaneV(_, _, _)
SaneV(W, t, v) ==
    CASE v = Null -> TRUE
      [] t.k = "obj" -> IsO(v)
      [] t.k = "list" -> IsList(v) => \A x \in ToSet(v[2]) : SaneV(W, t.item, x)
      [] t.k = "dict" -> IsDict(v) => \A x \in ToSet(v[2]) : SaneV(W, t.item, x[2])
      [] t.k \in {"date", "datetime", "enum"} -> Tag(v) = t.k
      [] OTHER -> ~IsO(v)
Sane(W) == \A o \in 1..Len(W.h) : \A fl \in ToSet(FieldsOf(W, W.h[o].c)) :
               SaneV(W, fl.t, W.h[o].f[fl.n])

(* ------------------------------- validation ------------------------------ *)
(* [seen, bad]: objects handled, paths violating                             *)
TypeOk(t, v) ==
    CASE t.k = "any" -> TRUE
      [] t.k = "int" -> Tag(v) = "int" /\ v[2] >= t.lo
      [] t.k = "list" -> IsList(v)
      [] t.k = "dict" -> IsDict(v)
      [] t.k = "date" -> Tag(v) \in {"date", "datetime"}
      [] OTHER -> Tag(v) = t.k
RECURSIVE VVal(_, _, _, _, _), VObj(_, _, _, _)
VVal(W, t, v, p, A) ==
    CASE v = Null -> IF t.req THEN [A EXCEPT !.bad = @ \cup {p}] ELSE A
      [] t.k = "obj" -> IF IsO(v) /\ W.h[v[2]].c = t.cls THEN VObj(W, v[2], p, A)
                        ELSE [A EXCEPT !.bad = @ \cup {p}]
      [] ~TypeOk(t, v) -> [A EXCEPT !.bad = @ \cup {p}]
      [] t.k = "list" ->
            FoldSeq(LAMBDA i, X : VVal(W, t.item, v[2][i], Cat(p, ToString(i - 1)), X),
                    IF Len(v[2]) > t.hi THEN [A EXCEPT !.bad = @ \cup {p}] ELSE A, [i \in 1..Len(v[2]) |-> i])
      [] t.k = "dict" ->
            FoldSeq(LAMBDA e, X : VVal(W, t.item, e[2], Cat(p, e[1]), X), A, v[2])
      [] OTHER -> A
VObj(W, o, p, A) ==
    IF o \in A.seen THEN A
    ELSE LET ob == W.h[o]
             one(fl, X) ==
               LET v == ob.f[fl.n]
                   skip == fl.st = "data" /\ ~ob.new /\ fl.n \notin ob.mod
                   idset == fl.st = "local" /\ ob.k[fl.n] \notin {Null, L(<<>>)}
               IN IF skip THEN X
                  ELSE IF v = Null
                  THEN IF fl.t.req /\ fl.st # "foreign" /\ ~idset
                       THEN [X EXCEPT !.bad = @ \cup {Cat(p, fl.j)}] ELSE X
                  ELSE VVal(W, fl.t, v, Cat(p, fl.j), X)
         IN FoldSeq(one, [A EXCEPT !.seen = @ \cup {o}], FieldsOf(W, ob.c))
Violations(W, o) == VObj(W, o, "", [seen |-> {}, bad |-> {}]).bad

(* ------------------------------- observation ----------------------------- *)
RECURSIVE DumpV(_, _, _)
(* [s: objects met so far, d: tree]                                          *)
DumpSeq(W, vs, s0) ==
    FoldSeq(LAMBDA v, X : LET r == DumpV(W, v, X.s) IN [s |-> r.s, d |-> Append(X.d, r.d)],
            [s |-> s0, d |-> <<>>], vs)
DumpV(W, v, s) ==
    CASE IsO(v) ->
            IF v[2] \in ToSet(s)
            THEN [s |-> s, d |-> <<"ref", CHOOSE i \in 1..Len(s) : s[i] = v[2]>>]
            ELSE LET ob == W.h[v[2]]
                     fs == FieldsOf(W, ob.c)
                     r == DumpSeq(W, [i \in 1..Len(fs) |-> ob.f[fs[i].n]], Append(s, v[2]))
                     ks == SelectSeq(fs, LAMBDA fl : fl.st = "local")
                 IN [s |-> r.s, d |-> <<"obj", ob.c, r.d, [i \in 1..Len(ks) |-> Plain(ob.k[ks[i].n])]>>]
      [] IsList(v) -> LET r == DumpSeq(W, v[2], s) IN [s |-> r.s, d |-> <<"list", r.d>>]
      [] IsDict(v) -> LET r == DumpSeq(W, [i \in 1..Len(v[2]) |-> v[2][i][2]], s)
                      IN [s |-> r.s, d |-> <<"dict", [i \in 1..Len(v[2]) |-> <<v[2][i][1], r.d[i]>>]>>]
      [] OTHER -> [s |-> s, d |-> v]
Dump(st) == DumpSeq(st.W, [i \in 1..Len(st.vars) |->
                             IF st.vars[i] = 0 THEN Null ELSE O(st.vars[i])], <<>>).d

(* --------------------------------- steps --------------------------------- *)
(* st = [W, vars: sequence of oids (0: unused)]; an input is [m: pairs, c: key
   path entries]                                                             *)
Res(st, W, out) == [st |-> [st EXCEPT !.W = [W EXCEPT !.exc = NoExc, !.mg = {}, !.val = Null]],
                    out |-> out]
ExcOut(W) == <<"exc", W.exc[1], W.exc[2]>>
OkOut == <<"ok">>
Done(st, W) == IF Ok(W) THEN Res(st, W, OkOut) ELSE Res(st, W, ExcOut(W))
InitSt(sch, Ds, n) ==
    [W |-> [S |-> sch, D |-> Ds, h |-> <<>>, mg |-> {}, val |-> Null, exc |-> NoExc],
     vars |-> [i \in 1..n |-> 0]]

RECURSIVE Reach(_, _, _)
Reach(W, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET o == CHOOSE x \in todo : TRUE
             nx == UNION {ToSet(Partners(W.h[o].f[n])) : n \in DOMAIN W.h[o].f}
             nd == UNION {{v[2][i][2][2] : i \in {j \in 1..Len(v[2]) : IsO(v[2][j][2])}} :
                          v \in {W.h[o].f[n] : n \in {m \in DOMAIN W.h[o].f : IsDict(W.h[o].f[m])}}}
         IN Reach(W, (todo \cup nx \cup nd) \ (seen \cup {o}), seen \cup {o})

New(st, op) ==
    LET B0 == Blank(st.W, op.cls)
        o == Len(B0.h)
        W1 == Paths(Top(B0, o, op.in.m, TRUE), o, op.in.c)
    IN IF Ok(W1) THEN Res([st EXCEPT !.vars[op.x] = o], W1, OkOut)
       ELSE Res(st, [st.W EXCEPT !.exc = W1.exc], ExcOut(W1))

(* the value with what lies at a path changed                                 *)
RECURSIVE Inside(_, _, _), At(_, _)
Inside(v, at, op) ==
    IF at = <<>> THEN IF op.name = "append" THEN L(Append(v[2], op.v)) ELSE D(DPut(v[2], op.key, op.v))
    ELSE IF at[1][1] = "i" THEN [v EXCEPT ![2][at[1][2] + 1] = Inside(@, Tail(at), op)]
    ELSE D(DPut(v[2], at[1][2], Inside(DGet(v[2], at[1][2]), Tail(at), op)))
At(v, at) ==
    IF at = <<>> THEN v
    ELSE IF at[1][1] = "i" THEN At(v[2][at[1][2] + 1], Tail(at))
    ELSE At(DGet(v[2], at[1][2]), Tail(at))
Path(op) == IF "at" \in DOMAIN op THEN op.at ELSE <<>>
Step(st, op) ==
    LET W == st.W
        o == IF op.name = "new" THEN 0 ELSE st.vars[op.x]
    IN CASE op.name = "new" -> New(st, op)
         [] op.name = "set" -> Done(st, Paths(Top(W, o, op.in.m, FALSE), o, op.in.c))
         [] op.name = "update" ->
              LET known == FNames(W, W.h[o].c)
              IN IF \E e \in ToSet(op.in.m) : e[1] \notin known
                 THEN Res(st, W, <<"exc", "ValueError", {}>>)
                 ELSE Done(st, FoldSeq(LAMBDA e, X : SetAttr(X, o, Fld(X, X.h[o].c, e[1]), e[2]),
                                       W, op.in.m))
         [] op.name = "assign" -> Done(st, SetAttr(W, o, Fld(W, W.h[o].c, op.f), op.v))
         [] op.name = "copy" ->      \* assign what another field holds
              Done(st, SetAttr(W, o, Fld(W, W.h[o].c, op.f), W.h[st.vars[op.y]].f[op.g]))
         [] op.name = "link" ->      \* assign another object held in a variable
              Done(st, SetAttr(W, o, Fld(W, W.h[o].c, op.f), O(st.vars[op.y])))
         [] op.name = "append" ->    \* in place, on a plain list
              Done(st, Mod([W EXCEPT !.h[o].f[op.f] = Inside(@, Path(op), op)], o, op.f))
         [] op.name = "put" ->       \* in place, on a plain dict
              Done(st, Mod([W EXCEPT !.h[o].f[op.f] = Inside(@, Path(op), op)], o, op.f))
         [] op.name = "pick" -> Done(st, [W EXCEPT !.h[o].picks = <<"only", op.names>>])
         [] op.name = "omit" ->
              Done(st, [W EXCEPT !.h[o].picks = <<"only",
                  SelectSeq(IF @ = <<"all">> THEN [i \in 1..Len(FieldsOf(W, W.h[o].c)) |-> FieldsOf(W, W.h[o].c)[i].n]
                            ELSE @[2], LAMBDA n : n \notin ToSet(op.names))>>])
         [] op.name = "mark" ->
              LET R == Reach(W, {o}, {})
              IN Done(st, [W EXCEPT !.h = [i \in 1..Len(W.h) |->
                              IF i \in R THEN [W.h[i] EXCEPT !.new = FALSE, !.mod = {}] ELSE W.h[i]]])
         [] op.name = "json" -> Res(st, W, <<"json", JObj(W, o, <<>>, {}, op.opt, "")>>)
         [] op.name = "validate" ->
              LET b == Violations(W, o)
              IN Res(st, W, IF b = {} THEN OkOut ELSE <<"exc", "ValidationException", b>>)
         [] op.name = "isvalid" -> Res(st, W, <<"bool", Violations(W, o) = {}>>)
         [] op.name = "again" ->     \* read the JSON output back into a new object
              New(st, [x |-> op.y, cls |-> W.h[o].c,
                       in |-> [m |-> JObj(W, o, <<>>, {}, op.opt, "")[2], c |-> <<>>]])

Used(st, x) == st.vars[x] # 0
Applicable(st, op) ==
    CASE op.name = "new" -> TRUE
      [] ~Used(st, op.x) -> FALSE
      [] op.name \in {"json", "again"} -> Sane(st.W)
      [] op.name = "append" -> IsList(At(st.W.h[st.vars[op.x]].f[op.f], Path(op)))
      [] op.name = "put" -> IsDict(At(st.W.h[st.vars[op.x]].f[op.f], Path(op)))
      [] op.name \in {"link", "copy"} -> Used(st, op.y)
      [] OTHER -> TRUE

(* how the outcome the code showed may differ from the specification         *)
OutFaults(st, op, want, got) ==
    CASE op.name = "json" -> IF got[1] = "json" /\ Canon(got[2]) = Canon(want[2]) THEN {} ELSE {"json"}
      [] op.name = "validate" /\ want[1] = "exc" ->
            IF got[1] # "exc" \/ got[2] # want[2] THEN {"accepted"}
            ELSE LET ks == ToSet(got[3])
                     all == \/ op.all = "yes"
                            \/ op.all = "class" /\ \A c \in DOMAIN st.W.S : st.W.S[c].allf
                     some == op.all = "no" \/ (op.all = "class" /\ \A c \in DOMAIN st.W.S : ~st.W.S[c].allf)
                 IN (IF ks # {} /\ ks \subseteq want[3] THEN {} ELSE {"keys"})
                    \cup (IF all /\ ks # want[3] THEN {"keys-missing"} ELSE {})
                    \cup (IF some /\ Cardinality(ks) # 1 THEN {"keys-extra"} ELSE {})
      [] op.name = "validate" -> IF got = want THEN {} ELSE {"rejected"}
      [] op.name = "isvalid" -> IF got = want THEN {} ELSE {"isvalid"}
      [] want[1] = "exc" ->
            IF got[1] # "exc" \/ got[2] # want[2] THEN {"not-refused"}
            ELSE IF want[3] = {"*"} \/ ToSet(got[3]) = want[3] THEN {} ELSE {"keys"}
      [] OTHER -> IF got[1] = want[1] THEN {} ELSE {"refused"}
=============================================================================
