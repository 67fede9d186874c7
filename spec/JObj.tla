--------------------------------- MODULE JObj ---------------------------------
(* Fields computed from the object, and rules that look at the object and at   *)
(* who acts on it: getters and setters, references taken from the operator,    *)
(* permission checks and callbacks written as type descriptions.               *)
(*                                                                             *)
(* A world has people (objects of classes U and V that never change) and       *)
(* documents (objects of class D).  Values: <<"null">>, <<"int", n>>,          *)
(* <<"o", k>> person k, <<"d", j>> document j, <<"id", k>> only the id of      *)
(* person k is known.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Null == <<"null">>
Cls(cfg, v) == IF v[1] = "d" THEN "D" ELSE cfg.people[v[2]].cls
Id(cfg, v) == IF v[1] = "d" THEN cfg.ids[v[2]] ELSE cfg.people[v[2]].id
(* the same object, or two objects that stand for the same stored one          *)
Same(cfg, v, w) == v = w \/ (Cls(cfg, v) = Cls(cfg, w) /\ Id(cfg, v) = Id(cfg, w) /\ Id(cfg, v) # "")
Calcs(cfg) == {cfg.calc[i].name : i \in 1..Len(cfg.calc)}
CalcOf(cfg, f) == cfg.calc[CHOOSE i \in 1..Len(cfg.calc) : cfg.calc[i].name = f]

(* ------------------------------ descriptions ------------------------------- *)
(* A description is a sequence of steps run on a value in turn.  `j` is the    *)
(* document the description belongs to, `inp` the value being assigned.        *)
Tests == {"max", "eq", "present", "isthis", "isobjof", "isobj"}
RECURSIVE Run(_, _, _, _, _, _), Get(_, _, _, _)
Get(cfg, W, v, f) ==
    IF v = Null THEN Null
    ELSE IF v[1] = "o" THEN cfg.people[v[2]][f]
    ELSE IF f \in Calcs(cfg) THEN Run(cfg, W, v[2], CalcOf(cfg, f).get, v, Null)
    ELSE W[v[2]][f]
Known(v) == IF v[1] = "id" THEN <<"o", v[2]>> ELSE v
Apply(cfg, W, j, s, v, inp) ==
    CASE s[1] = "this" -> <<"d", j>>
      [] s[1] = "getop" -> W[j].op
      [] s[1] = "passin" -> inp
      [] s[1] = "const" -> s[2]
      [] s[1] = "fval" -> Get(cfg, W, v, s[2])
      [] s[1] = "fobj" -> Known(Get(cfg, W, v, s[2]))
      [] s[1] = "add" -> IF v = Null THEN Null ELSE <<"int", v[2] + s[2]>>
      [] s[1] = "mul" -> IF v = Null THEN Null ELSE <<"int", v[2] * s[2]>>
      [] s[1] = "addf" -> IF v = Null THEN Null
                          ELSE LET w == Get(cfg, W, <<"d", j>>, s[2]) IN <<"int", v[2] + (IF w = Null THEN 0 ELSE w[2])>>
      [] s[1] = "sub" -> IF v = Null THEN Null ELSE <<"int", v[2] - s[2]>>
      [] s[1] = "default" -> IF v = Null THEN <<"int", s[2]>> ELSE v
      [] s[1] \in Tests -> v
      [] OTHER -> Assert(FALSE, s)
Run(cfg, W, j, steps, v, inp) == IF steps = <<>> THEN v ELSE Run(cfg, W, j, Tail(steps), Apply(cfg, W, j, Head(steps), v, inp), inp)
(* a description accepts when every test in it accepts what it computes        *)
Passes(cfg, W, j, s, v) ==
    CASE s[1] = "max" -> v = Null \/ v[2] <= s[2]
      [] s[1] = "eq" -> v = Null \/ v[2] = s[2]
      [] s[1] = "present" -> v # Null
      [] s[1] = "isthis" -> v # Null /\ Same(cfg, v, <<"d", j>>)
      [] s[1] = "isobjof" -> v # Null /\ Cls(cfg, v) = s[2]
      [] s[1] = "isobj" -> v # Null /\ LET w == Run(cfg, W, j, s[2], v, Null) IN w # Null /\ Same(cfg, v, w)
      [] OTHER -> TRUE
Accepts(cfg, W, j, steps, v) == LET x == Run(cfg, W, j, steps, v, Null) IN \A i \in 1..Len(steps) : Passes(cfg, W, j, steps[i], x)
Calc(cfg, W, j, c) == Run(cfg, W, j, c.get, <<"d", j>>, Null)

(* --------------------------------- changes --------------------------------- *)
Ref(v) == IF v = Null THEN 0 ELSE v[2]
SetField(d, f, v) == IF d[f] = v THEN d ELSE [d EXCEPT ![f] = v, !.mod = IF d.new THEN @ ELSE @ \cup {f}]
SetRef(d, f, v) == IF v = Null /\ d[f][1] # "o" THEN d ELSE SetField(d, f, v)
SetId(d, v) == IF Ref(v) = Ref(d.own) THEN d ELSE SetField(d, "own", v)
Put(cfg, W, j, f, v) ==
    IF f \in {"p", "own"} THEN [W EXCEPT ![j] = SetRef(@, f, v)]
    ELSE [W EXCEPT ![j] = SetField(@, f, v)]
Settable(cfg, f) == f \notin Calcs(cfg) \/ CalcOf(cfg, f).set # <<>>
Assign(cfg, W, j, f, v) ==
    IF f \notin Calcs(cfg) THEN Put(cfg, W, j, f, v)
    ELSE LET s == CalcOf(cfg, f).set IN IF s = <<>> THEN W ELSE Put(cfg, W, j, s[1], Run(cfg, W, j, s[2], <<"d", j>>, v))
(* who is recorded when `v` acts on a new document                             *)
Recorded(cfg, v) == IF cfg.asop = "boss" THEN cfg.people[v[2]].p ELSE v
OpBy(cfg, W, j, v) ==
    LET d == [W[j] EXCEPT !.op = v]
    IN [W EXCEPT ![j] = IF v = Null \/ ~d.new \/ cfg.asop = "none" THEN d
                        ELSE SetId(d, <<"id", cfg.people[Recorded(cfg, v)[2]].rep>>)]
Wrong(cfg, W, j) ==
    {cfg.calc[i].name : i \in {i \in 1..Len(cfg.calc) : ~Accepts(cfg, W, j, cfg.calc[i].check, Calc(cfg, W, j, cfg.calc[i]))}}
    \cup (IF cfg.asop # "none" /\ W[j].own = Null /\ (W[j].new \/ "own" \in W[j].mod) THEN {"own"} ELSE {})
(* checks of an action: an operator and a description that accepts             *)
Loads(cfg) == \E i \in 1..Len(cfg.check) : cfg.check[i][1] = "fobj"
May(cfg, W, j) == W[j].op # Null /\ Accepts(cfg, W, j, cfg.check, <<"d", j>>)
Looked(cfg, W, j) == IF W[j].op # Null /\ Loads(cfg) THEN [W EXCEPT ![j].own = Known(@)] ELSE W
Hooked(cfg, W, j) == IF cfg.hook = <<>> THEN W ELSE Put(cfg, W, j, cfg.hook[1], Run(cfg, W, j, cfg.hook[2], <<"d", j>>, Null))
Shown(cfg, W, j) == <<W[j].a, W[j].b, [i \in 1..Len(cfg.calc) |-> IF cfg.calc[i].hidden THEN Null ELSE Calc(cfg, W, j, cfg.calc[i])], Ref(W[j].own)>>
Guarded(cfg, act) == act \in ToSet(cfg.guard)
Step(cfg, W, op) ==
    LET j == op.j
        R(w, out) == [W |-> w, out |-> out]
    IN CASE op.k \in {"assign", "update"} -> IF Settable(cfg, op.f) THEN R(Assign(cfg, W, j, op.f, op.v), <<"ok">>) ELSE R(W, <<"error">>)
         [] op.k = "input" -> R(IF op.f \in Calcs(cfg) THEN W ELSE Put(cfg, W, j, op.f, op.v), <<"ok">>)
         [] op.k = "id" -> R([W EXCEPT ![j] = SetId(@, op.v)], <<"ok">>)
         [] op.k = "opby" -> R(OpBy(cfg, W, j, op.v), <<"ok">>)
         [] op.k = "mark" -> R([W EXCEPT ![j].new = FALSE, ![j].mod = {}], <<"ok">>)
         [] op.k = "validate" -> R(W, IF Wrong(cfg, W, j) = {} THEN <<"ok">> ELSE <<"invalid", Wrong(cfg, W, j)>>)
         [] op.k = "read" -> IF ~Guarded(cfg, "read") THEN R(W, <<"json", Shown(cfg, W, j)>>)
                             ELSE R(Looked(cfg, W, j), IF May(cfg, W, j) THEN <<"json", Shown(cfg, W, j)>> ELSE <<"unauthorized">>)
         [] op.k = "delete" ->
              LET g == Guarded(cfg, "delete")
                  w1 == IF g THEN Looked(cfg, W, j) ELSE W
              IN IF g /\ ~May(cfg, W, j) THEN R(w1, <<"unauthorized">>) ELSE R(Hooked(cfg, w1, j), <<"ok">>)
         [] op.k = "save" ->
              LET g == Guarded(cfg, IF W[j].new THEN "create" ELSE "update")
                  w1 == IF g THEN Looked(cfg, W, j) ELSE W
                  w2 == Hooked(cfg, w1, j)
              IN IF g /\ ~May(cfg, W, j) THEN R(w1, <<"unauthorized">>)
                 ELSE IF Wrong(cfg, w2, j) # {} THEN R(w2, <<"invalid", Wrong(cfg, w2, j)>>)
                 ELSE R([w2 EXCEPT ![j].new = FALSE, ![j].mod = {}], <<"ok">>)
         [] OTHER -> Assert(FALSE, op)
Doc == [a |-> Null, b |-> Null, p |-> Null, own |-> Null, new |-> TRUE, mod |-> {}, op |-> Null]
Fresh(cfg) == [j \in 1..Len(cfg.ids) |-> Doc]
(* what can be seen of a world                                                 *)
View(cfg, W) == [j \in 1..Len(W) |-> [a |-> W[j].a, b |-> W[j].b, p |-> W[j].p, own |-> W[j].own, new |-> W[j].new, mod |-> W[j].mod,
                                      calc |-> [i \in 1..Len(cfg.calc) |-> Calc(cfg, W, j, cfg.calc[i])]]]
=============================================================================
