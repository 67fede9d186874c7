------------------------------- MODULE JChain -------------------------------
(* A field's modifier chain: what runs, in which order and with which value, *)
(* when input is taken, when the object is validated and when it is saved.   *)
(* A chain is a sequence of elements                                         *)
(*   [k, id, ...]   k: E eager mark, P presave mark, str, req, def, t, v, s, *)
(*                  f, o, w and nested chains nt, nv, ns                     *)
(* Texts are sequences of letters; transformers append their own letter, so  *)
(* the stored text tells the order in which they ran. Every callback call is *)
(* logged as <<kind, id, value>>.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Null == <<"none">>
S(q) == <<"s", q>>
Tag(v) == v[1]
Grow(v, c) == IF Tag(v) = "s" THEN S(Append(v[2], c)) ELSE v
Rejects(el, v) == Tag(v) = "s" /\ \E i \in 1..Len(v[2]) :
                     \/ v[2][i] \in ToSet(el.has)
                     \/ i = Len(v[2]) /\ v[2][i] \in ToSet(el.ends)

(* ------------------------------ parts of a chain ------------------------- *)
Pos(ch, k) == {i \in 1..Len(ch) : ch[i].k = k}
Fp(ch) == IF Pos(ch, "P") = {} THEN Len(ch) + 1 ELSE CHOOSE i \in Pos(ch, "P") : \A j \in Pos(ch, "P") : i <= j
Le(ch) == LET es == {i \in Pos(ch, "E") : i < Fp(ch)}
          IN IF es = {} THEN 0 ELSE CHOOSE i \in es : \A j \in es : j <= i
Eagers(ch) == SubSeq(ch, 1, Le(ch) - 1)                       \* before the last eager mark
Middles(ch) == SubSeq(ch, IF Le(ch) = 0 THEN 1 ELSE Le(ch), Fp(ch) - 1)
Lates(ch) == SubSeq(ch, Fp(ch), Len(ch))                      \* from the first presave mark

(* r: [v, log, ok] value, calls, no failure so far                           *)
R(v) == [v |-> v, log |-> <<>>, ok |-> TRUE]
RECURSIVE Tr(_, _, _), Va(_, _, _)
T1(el, r, all) ==
    CASE ~r.ok -> r
      [] el.k = "def" -> IF r.v = Null THEN [r EXCEPT !.v = el.v] ELSE r
      [] el.k = "t" -> IF r.v = Null THEN r
                       ELSE [r EXCEPT !.v = Grow(@, el.id), !.log = Append(@, <<"t", el.id, r.v>>)]
      [] el.k = "nt" -> LET q == Tr(el.ch, r.v, all)
                        IN [q EXCEPT !.log = r.log \o @]
      [] OTHER -> r
V1(el, r, all) ==
    CASE el.k = "str" -> [r EXCEPT !.ok = @ /\ Tag(r.v) \in {"none", "s"}]
      [] el.k = "req" -> [r EXCEPT !.ok = @ /\ r.v # Null]
      [] el.k = "v" -> IF r.v = Null THEN r
                       ELSE [r EXCEPT !.ok = @ /\ ~Rejects(el, r.v), !.log = Append(@, <<"v", el.id, r.v>>)]
      [] el.k = "nv" -> LET q == Tr(el.ch, r.v, all)
                            w == IF q.ok THEN Va(el.ch, q.v, all) ELSE q
                            lg == IF q.ok THEN q.log \o w.log ELSE q.log
                        IN [r EXCEPT !.ok = @ /\ w.ok, !.log = @ \o lg]
      [] OTHER -> r
Step(el, r, all) == LET q == T1(el, r, all) IN IF q.ok THEN V1(el, q, all) ELSE q
(* taking input *)
Tr(ch, v, all) ==
    LET a == FoldSeq(LAMBDA el, r : IF r.ok THEN Step(el, r, all) ELSE r, R(v), Eagers(ch))
    IN FoldSeq(LAMBDA el, r : T1(el, r, all), a, Middles(ch))
(* checking *)
Va(ch, v, all) ==
    FoldSeq(LAMBDA el, r : IF r.ok \/ all THEN V1(el, r, all) ELSE r, R(v), Middles(ch))
(* saving: m is whether the field counts as written; steps: values stored    *)
S1(el, r, m) ==
    CASE ~r.ok -> r
      [] el.k \in {"s", "f"} ->
            [r EXCEPT !.v = IF el.n = 0 THEN S(<<el.id>>)
                            ELSE IF @ = Null THEN S(<<el.id>>) ELSE Grow(@, el.id),
                      !.log = Append(@, IF el.n = 0 THEN <<"s", el.id>> ELSE <<"s", el.id, r.v>>)]
      [] el.k = "ns" -> LET q == Tr(el.ch, r.v, FALSE) IN [q EXCEPT !.log = r.log \o @]
      [] el.k = "o" -> [r EXCEPT !.log = Append(@, <<"o", el.id, r.v>>)]
      [] el.k = "w" -> IF m THEN [r EXCEPT !.log = Append(@, <<"w", el.id, r.v>>)] ELSE r
      [] OTHER -> r

(* --------------------------------- objects ------------------------------- *)
(* schema: sequence of [n, coll, ch]; object: [new, mod, f] or absent (<<>>) *)
Put(o, n, v) == IF o.f[n] = v THEN o
                ELSE [o EXCEPT !.f[n] = v, !.mod = IF o.new THEN @ ELSE @ \cup {n}]
(* taking input for one field: [v, log, bad]                                 *)
TakeF(fl, v) ==
    IF fl.coll = "" THEN LET r == Tr(fl.ch, v, FALSE)
                         IN [v |-> r.v, log |-> r.log, bad |-> IF r.ok THEN {} ELSE {<<fl.n>>}]
    ELSE IF Tag(v) # fl.coll THEN [v |-> v, log |-> <<>>, bad |-> {}]
    ELSE LET one(i, a) ==
               IF a.bad # {} THEN a
               ELSE LET x == IF fl.coll = "list" THEN v[2][i] ELSE v[2][i][2]
                        key == IF fl.coll = "list" THEN ToString(i - 1) ELSE v[2][i][1]
                        r == Tr(fl.ch, x, FALSE)
                    IN [v |-> Append(a.v, IF fl.coll = "list" THEN r.v ELSE <<key, r.v>>), log |-> a.log \o r.log,
                        bad |-> IF r.ok THEN {} ELSE {<<fl.n, key>>}]
             q == FoldSeq(one, [v |-> <<>>, log |-> <<>>, bad |-> {}], [i \in 1..Len(v[2]) |-> i])
         IN [q EXCEPT !.v = <<fl.coll, @>>]
CheckF(fl, v, all) ==        \* [log, bad]
    IF fl.coll = "" THEN LET r == Va(fl.ch, v, all)
                         IN [log |-> r.log, bad |-> IF r.ok THEN {} ELSE {<<fl.n>>}]
    ELSE IF v = Null THEN [log |-> <<>>, bad |-> {}]
    ELSE IF Tag(v) # fl.coll THEN [log |-> <<>>, bad |-> {<<fl.n>>}]
    ELSE LET one(i, a) ==
               IF a.bad # {} /\ ~all THEN a
               ELSE LET x == IF fl.coll = "list" THEN v[2][i] ELSE v[2][i][2]
                        key == IF fl.coll = "list" THEN ToString(i - 1) ELSE v[2][i][1]
                        r == Va(fl.ch, x, all)
                    IN [log |-> a.log \o r.log, bad |-> a.bad \cup IF r.ok THEN {} ELSE {<<fl.n, key>>}]
         IN FoldSeq(one, [log |-> <<>>, bad |-> {}], [i \in 1..Len(v[2]) |-> i])
(* presave for one value: every validated step of a plain field is stored    *)
SaveV(ch, v, m, store) ==    \* [r, vs]: result and the values stored on the way
    LET a == FoldSeq(LAMBDA el, r : S1(el, r, m), R(v), Eagers(ch) \o Middles(ch))
        one(el, p) == IF ~p.r.ok THEN p
                      ELSE LET q == S1(el, p.r, m \/ (store /\ \E i \in 1..Len(p.vs) : p.vs[i] # v))
                               w == IF q.ok THEN V1(el, q, FALSE) ELSE q
                           IN [r |-> w, vs |-> IF w.ok THEN Append(p.vs, w.v) ELSE p.vs]
    IN FoldSeq(one, [r |-> a, vs |-> <<>>], Lates(ch))
SaveF(fl, o) ==              \* [o, log, bad]
    LET v == o.f[fl.n]
        m == o.new \/ fl.n \in o.mod
    IN IF fl.coll = "" THEN
          LET p == SaveV(fl.ch, v, m, TRUE)
              st == FoldSeq(LAMBDA x, ob : Put(ob, fl.n, x), o, p.vs)
          IN [o |-> IF p.r.ok THEN Put(st, fl.n, p.r.v) ELSE st, log |-> p.r.log,
              bad |-> IF p.r.ok THEN {} ELSE {<<fl.n>>}]
       ELSE IF Tag(v) # fl.coll THEN [o |-> o, log |-> <<>>, bad |-> {}]
       ELSE LET one(i, a) ==
                  IF a.bad # {} THEN a
                  ELSE LET x == IF fl.coll = "list" THEN v[2][i] ELSE v[2][i][2]
                           key == IF fl.coll = "list" THEN ToString(i - 1) ELSE v[2][i][1]
                           r == SaveV(fl.ch, x, m, FALSE).r
                       IN [v |-> Append(a.v, IF fl.coll = "list" THEN r.v ELSE <<key, r.v>>),
                           log |-> a.log \o r.log, bad |-> IF r.ok THEN {} ELSE {<<fl.n, key>>}]
                q == FoldSeq(one, [v |-> <<>>, log |-> <<>>, bad |-> {}], [i \in 1..Len(v[2]) |-> i])
            IN [o |-> IF q.bad = {} THEN Put(o, fl.n, <<fl.coll, q.v>>) ELSE o, log |-> q.log, bad |-> q.bad]

(* ---------------------------------- steps -------------------------------- *)
None == [none |-> TRUE]
Blank(sch) == [new |-> TRUE, mod |-> {}, f |-> [n \in {sch[i].n : i \in 1..Len(sch)} |-> Null]]
Has(in, n) == \E i \in 1..Len(in) : in[i][1] = n
Get(in, n) == in[CHOOSE i \in 1..Len(in) : in[i][1] = n][2]
Take(sch, o, in, fill) ==    \* [o, log, bad]
    FoldSeq(LAMBDA fl, a :
              IF a.bad # {} \/ (~fill /\ ~Has(in, fl.n)) THEN a
              ELSE LET r == TakeF(fl, IF Has(in, fl.n) THEN Get(in, fl.n) ELSE Null)
                   IN [o |-> IF r.bad = {} THEN Put(a.o, fl.n, r.v) ELSE a.o,
                       log |-> a.log \o r.log, bad |-> r.bad],
            [o |-> o, log |-> <<>>, bad |-> {}], sch)
Check(sch, o, all) ==
    FoldSeq(LAMBDA fl, a :
              IF (a.bad # {} /\ ~all) \/ (~o.new /\ fl.n \notin o.mod) THEN a
              ELSE LET r == CheckF(fl, o.f[fl.n], all)
                   IN [log |-> a.log \o r.log, bad |-> a.bad \cup r.bad],
            [log |-> <<>>, bad |-> {}], sch)
Save(sch, o) ==
    FoldSeq(LAMBDA fl, a :
              IF a.bad # {} \/ ~(a.o.new \/ a.o.mod # {} \/ (Pos(fl.ch, "f") # {} /\ fl.coll = "")) THEN a
              ELSE LET r == SaveF(fl, a.o) IN [o |-> r.o, log |-> a.log \o r.log, bad |-> r.bad],
            [o |-> o, log |-> <<>>, bad |-> {}], sch)
Out(o, log, bad) == [o |-> o, log |-> log, bad |-> bad]
Do(sch, o, op) ==
    CASE op.name = "new" -> LET r == Take(sch, Blank(sch), op.in, TRUE)
                            IN Out(IF r.bad = {} THEN r.o ELSE o, r.log, r.bad)
      [] op.name = "set" -> LET r == Take(sch, o, op.in, FALSE) IN Out(r.o, r.log, r.bad)
      [] op.name = "assign" -> Out(Put(o, op.f, op.v), <<>>, {})
      [] op.name = "mark" -> Out([o EXCEPT !.new = FALSE, !.mod = {}], <<>>, {})
      [] op.name = "validate" -> LET r == Check(sch, o, op.all) IN Out(o, r.log, r.bad)
      [] op.name = "json" -> Out(o, <<>>, {})
      [] op.name = "save" ->
           LET c == IF op.skip THEN Out(o, <<>>, {}) ELSE Check(sch, o, op.all)
               r == IF c.bad # {} THEN Out(o, <<>>, c.bad) ELSE Save(sch, o)
           IN Out(r.o, c.log \o r.log \o (IF r.bad = {} THEN <<<<"write">>>> ELSE <<>>), r.bad)
=============================================================================
