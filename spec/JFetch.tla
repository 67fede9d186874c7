-------------------------------- MODULE JFetch --------------------------------
(* Fetching references.  A store knows objects and how they are related; an    *)
(* object may know only the ids of what it refers to.  `include` asks the      *)
(* store for the objects on one end of a relation.                             *)
(*                                                                             *)
(* cfg.objs: class and id of each object.  cfg.rels: relations, each with an   *)
(* end `a` that records ids (unless they are kept in a table of their own) and *)
(* an end `b`, possibly absent.  State: `stored[r]` pairs of objects the store *)
(* knows to be related, `known[r]` pairs linked in memory, `objs[i]` the       *)
(* content and the modification report of object i; a partial object lacks a    *)
(* field (`more`, 0 when not there) that completing it fetches.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
End(cfg, r, e) == cfg.rels[r][e]
Objs(cfg) == 1..Len(cfg.objs)
Rels(cfg) == 1..Len(cfg.rels)
(* pairs of a relation in which object i stands on end e                       *)
At(pairs, e, i) == {p \in pairs : p[IF e = "a" THEN 1 ELSE 2] = i}
Far(pairs, e, i) == {p[IF e = "a" THEN 2 ELSE 1] : p \in At(pairs, e, i)}
Has(cfg, r, e, i) == End(cfg, r, e).field # "" /\ cfg.objs[i].cls = End(cfg, r, e).cls
Clean(o) == [o EXCEPT !.base = o.name, !.mod = FALSE, !.new = FALSE]
Start(cfg) == [stored |-> [r \in Rels(cfg) |-> ToSet(cfg.rels[r].pairs)], known |-> [r \in Rels(cfg) |-> {}],
               objs |-> [i \in Objs(cfg) |-> [name |-> 0, base |-> 0, new |-> cfg.objs[i].new, mod |-> FALSE,
                                               more |-> IF cfg.objs[i].part THEN 0 ELSE i]]]
(* moving a reference an object does not have loaded                           *)
MayMove(cfg, W, op) ==
    /\ At(W.known[op.r], "a", op.i) = {}
    /\ \A k \in ToSet(op.to) : IF End(cfg, op.r, "b").many THEN TRUE
                               ELSE At(W.known[op.r], "b", k) = {} /\ At(W.stored[op.r], "b", k) \subseteq At(W.stored[op.r], "a", op.i)
Enabled(cfg, W, op) ==
    CASE op.k = "move" -> MayMove(cfg, W, op)
      [] OTHER -> TRUE
Step(cfg, W, op) ==
    LET R(w, out) == [W |-> w, out |-> out] IN
    CASE op.k = "include" -> R([W EXCEPT !.known[op.r] = @ \cup At(W.stored[op.r], op.e, op.i)], <<"ok">>)
      [] op.k = "name" -> R([W EXCEPT !.objs[op.i].name = op.v, !.objs[op.i].mod = ~W.objs[op.i].new /\ (@ \/ op.v # W.objs[op.i].name)], <<"ok">>)
      [] op.k = "mark" -> R([W EXCEPT !.objs[op.i] = Clean(@)], <<"ok">>)
      [] op.k = "reset" -> IF W.objs[op.i].new THEN R(W, <<"refused">>)
                           ELSE R([W EXCEPT !.objs[op.i].name = W.objs[op.i].base, !.objs[op.i].mod = FALSE], <<"ok">>)
      [] op.k = "complete" -> R([W EXCEPT !.objs[op.i].more = op.i], <<"ok">>)
      [] op.k = "data" -> R(W, <<"ok">>)       \* a field that refers to nothing
      [] op.k = "read" -> R(W, <<"json", W.objs[op.i].name>>)
      [] op.k = "save" -> R([W EXCEPT !.objs[op.i] = Clean(@)], <<"written", {op.i}>>)
      [] op.k = "move" -> R([W EXCEPT !.stored[op.r] = (@ \ At(@, "a", op.i)) \cup {<<op.i, k>> : k \in ToSet(op.to)}, !.objs[op.i] = Clean(@)], <<"ok">>)
      [] OTHER -> Assert(FALSE, op)
(* what can be seen: per object its content and report, per end of a relation  *)
(* the linked objects and the recorded ids                                     *)
Ends(cfg, i) == {<<r, e>> \in Rels(cfg) \X {"a", "b"} : Has(cfg, r, e, i)}
Ids(cfg, W, r, e, i) == IF e = "a" /\ End(cfg, r, "a").ids THEN Far(W.stored[r], e, i) ELSE {}
View(cfg, W) == [i \in Objs(cfg) |->
    [name |-> W.objs[i].name, more |-> W.objs[i].more, new |-> W.objs[i].new, mod |-> IF W.objs[i].mod THEN {"name"} ELSE {},
     prev |-> IF W.objs[i].mod THEN {<<"name", W.objs[i].base>>} ELSE {},
     ends |-> {<<q[1], q[2], Far(W.known[q[1]], q[2], i), Ids(cfg, W, q[1], q[2], i)>> : q \in Ends(cfg, i)}]]
=============================================================================
