-------------------------------- MODULE MC_Fetch -------------------------------
EXTENDS JFetch, Json
CONSTANTS Depth
Model == JsonDeserialize("model.json")
VARIABLES c, W, op, out, broken
vars == <<c, W, op, out, broken>>
Cfg == Model[c]
(* C25: only what is known grows, by exactly what the store has for that end;  *)
(* content, recorded ids and modification reports of every object stay, both   *)
(* ends agree by construction of pairs and fetching again changes nothing.     *)
Promise(x, o1, r) ==
    LET y == r.W IN
    /\ o1.k = "include" =>
         /\ y.objs = x.objs /\ y.stored = x.stored
         /\ Far(y.known[o1.r], o1.e, o1.i) = Far(x.stored[o1.r], o1.e, o1.i)
         /\ \A q \in Rels(Cfg) : x.known[q] \subseteq y.known[q] /\ (q # o1.r => y.known[q] = x.known[q])
         /\ Step(Cfg, y, o1).W = y
    /\ o1.k = "complete" => y = [x EXCEPT !.objs[o1.i].more = o1.i]
    /\ o1.k \in {"name", "mark", "reset", "read", "save", "data"} => y.known = x.known /\ y.stored = x.stored
    /\ \A q \in Rels(Cfg) : y.known[q] \subseteq y.stored[q]
    /\ \A q \in Rels(Cfg) : \A i \in Objs(Cfg) :
          /\ (~End(Cfg, q, "a").many => Cardinality(Far(y.stored[q], "a", i)) <= 1)
          /\ (End(Cfg, q, "b").field # "" /\ ~End(Cfg, q, "b").many => Cardinality(Far(y.stored[q], "b", i)) <= 1)
Init == c \in 1..Len(Model) /\ W = Start(Cfg) /\ op = [k |-> "init"] /\ out = <<"ok">> /\ broken = FALSE
Next == /\ TLCGet("level") <= Depth
        /\ \E o1 \in ToSet(Cfg.ops) :
             /\ Enabled(Cfg, W, o1)
             /\ LET r == Step(Cfg, W, o1)
                IN W' = r.W /\ out' = r.out /\ broken' = ~Promise(W, o1, r) /\ op' = o1
        /\ c' = c
Spec == Init /\ [][Next]_vars
Seen == <<c, W, broken>>
Promised == ~broken
Emit == PrintT(<<"@@", ToJson([s |-> [c |-> c, W |-> W], o |-> op', r |-> out', t |-> [c |-> c, W |-> W'], v |-> View(Cfg, W')])>>)
=============================================================================
