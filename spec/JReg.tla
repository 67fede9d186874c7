--------------------------------- MODULE JReg ---------------------------------
(* The registry of classes and enums: names, graphs, references by name,        *)
(* inheritance of fields, and class options.                                    *)
(*                                                                              *)
(* W is the sequence of accepted definitions, each                              *)
(*   [kind "class"/"enum", g graph, n name, parent (0 or an index), refs, opts] *)
(* refs: sequence of [f field, how, n]; how is one of                           *)
(*   text opt list dict union (names in an annotation: a class or an enum),     *)
(*   objof listof (a class), enumof (an enum)                                   *)
(* opts: only the options the definition sets, option -> boolean                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Options == {"strict", "camel", "nulls", "all", "abstract", "reset"}
Default(q) == q \in {"strict", "camel"}
Classes(W) == {i \in 1..Len(W) : W[i].kind = "class"}
IdOf(W, g, n, k) == LET S == {i \in 1..Len(W) : W[i].kind = k /\ W[i].g = g /\ W[i].n = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
RECURSIVE RefsOf(_, _)
RefsOf(W, i) ==                         \* fields of the parent, unless declared again
    IF W[i].parent = 0 THEN ToSet(W[i].refs)
    ELSE {r \in RefsOf(W, W[i].parent) : \A k \in 1..Len(W[i].refs) : W[i].refs[k].f # r.f} \cup ToSet(W[i].refs)
Target(W, i, r) ==
    LET c == IdOf(W, W[i].g, r.n, "class") e == IdOf(W, W[i].g, r.n, "enum")
    IN CASE r.how \in {"objof", "listof"} -> c [] r.how = "enumof" -> e [] OTHER -> IF c # 0 THEN c ELSE e
Effective(W, i, q) == IF q \in DOMAIN W[i].opts THEN W[i].opts[q] ELSE Default(q)
RECURSIVE Reach(_, _)
Reach(W, S) == LET T == S \cup {Target(W, i, r) : <<i, r>> \in {<<j, q>> \in S \X UNION {RefsOf(W, k) : k \in S} : q \in RefsOf(W, j)}}
                   U == {t \in T : t # 0 /\ W[t].kind = "class"}
               IN IF U = S THEN S ELSE Reach(W, U)
Closed(W, i) == \A j \in Reach(W, {i}) : \A r \in RefsOf(W, j) : Target(W, j, r) # 0

Either == <<"any">>
No == <<"no">>
Step(W, o) ==
    CASE o.op \in {"class", "enum"} ->
            IF IdOf(W, o.g, o.n, o.op) # 0 THEN [W |-> W, out |-> <<"redefined">>]
            ELSE [W |-> Append(W, [kind |-> o.op, g |-> o.g, n |-> o.n, parent |-> o.parent, refs |-> o.refs, opts |-> o.opts]), out |-> <<"ok">>]
      [] o.op = "find" -> [W |-> W, out |-> LET i == IdOf(W, o.g, o.n, o.kind) IN IF i = 0 THEN No ELSE <<"of", i>>]
      [] o.op = "make" ->
            LET r == CHOOSE q \in RefsOf(W, o.i) : q.f = o.f
                t == Target(W, o.i, r)
            IN [W |-> W, out |-> IF Effective(W, o.i, "abstract") THEN <<"abstract">>
                                 ELSE IF t = 0 THEN No
                                 ELSE IF ~Closed(W, o.i) THEN Either
                                 ELSE IF (W[t].kind = "class") # (o.give = "obj") THEN No
                                 ELSE IF W[t].kind = "class" /\ Effective(W, t, "abstract") THEN No
                                 ELSE <<"of", t>>]
      [] o.op = "opts" ->
            [W |-> W, out |-> IF ~Closed(W, o.i) THEN Either
                              ELSE IF o.ask # "abstract" /\ Effective(W, o.i, "abstract") THEN <<"abstract">>
                              ELSE <<"is", Effective(W, o.i, o.ask)>>]
      [] o.op = "fields" -> [W |-> W, out |-> <<"fields", {r.f : r \in RefsOf(W, o.i)}>>]
=============================================================================
