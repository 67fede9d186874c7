------------------------------ MODULE MC_Chain ------------------------------
(* Every chain of up to MaxLen modifiers over the kinds below, on one field, *)
(* under every sequence of operations up to Depth.                           *)
EXTENDS JChain, Json
CONSTANTS MaxLen, Depth, Kinds, Emitting
VARIABLES ms, o, op, out, broken
vars == <<ms, o, op, out, broken>>

El(k, i) == [k |-> k, id |-> ToString(i)]
V(i, has, ends) == [k |-> "v", id |-> ToString(i), has |-> has, ends |-> ends]
Digits == <<"1", "2", "3", "4", "5">>
Mark(k) == [k |-> k]
Expand(m, i) ==
    CASE m = "t" -> <<Mark("E"), El("t", i)>>
      [] m = "vx" -> <<V(i, <<"x">>, <<>>)>>
      [] m = "vd" -> <<V(i, <<>>, Digits)>>
      [] m = "req" -> <<Mark("req")>>
      [] m = "def" -> <<[k |-> "def", v |-> S(<<"y">>)]>>
      [] m = "s" -> <<Mark("P"), [k |-> "s", id |-> ToString(i), n |-> 1]>>
      [] m = "s0" -> <<Mark("P"), [k |-> "s", id |-> ToString(i), n |-> 0]>>
      [] m = "f" -> <<Mark("P"), [k |-> "f", id |-> ToString(i), n |-> 1]>>
      [] m = "o" -> <<El("o", i)>>
      [] m = "w" -> <<El("w", i)>>
      [] m = "nv" -> <<[k |-> "nv", ch |-> <<Mark("E"), [k |-> "t", id |-> "n" \o ToString(i)], V(i, <<"x">>, Digits)>>]>>
      [] m = "nt" -> <<Mark("E"), [k |-> "nt", ch |-> <<V(i, <<"x">>, <<>>), Mark("E"), El("t", i)>>]>>
      [] m = "ns" -> <<Mark("P"), [k |-> "ns", ch |-> <<Mark("E"), El("t", i), V(i, <<"x">>, <<>>)>>]>>
Chain(q) == <<Mark("str")>> \o FlattenSeq([i \in 1..Len(q) |-> Expand(q[i], i)])
Sch(q) == <<[n |-> "a", coll |-> "", ch |-> Chain(q)]>>

In(v) == <<<<"a", v>>>>
Texts == {Null, S(<<"x">>), S(<<"y">>), <<"int", 3>>}
Ops(ob) == {[name |-> "new", in |-> i] : i \in {<<>>} \cup {In(v) : v \in Texts}} \cup
           (IF ob = None THEN {} ELSE
            {[name |-> "set", in |-> In(v)] : v \in {S(<<"x">>), S(<<"y">>)}}
            \cup {[name |-> "assign", f |-> "a", v |-> v] : v \in {Null, S(<<"x">>), S(<<"1">>)}}
            \cup {[name |-> "validate", all |-> b] : b \in BOOLEAN}
            \cup {[name |-> "save", all |-> FALSE, skip |-> b] : b \in BOOLEAN}
            \cup {[name |-> "mark"], [name |-> "json"]})

(* --------------------------- what is promised (C04) ---------------------- *)
Late == {"s", "s0", "f", "ns"}
FirstLate(q) == LET L == {i \in 1..Len(q) : q[i] \in Late} IN IF L = {} THEN Len(q) + 1 ELSE CHOOSE i \in L : \A j \in L : i <= j
Before(q) == SubSeq(q, 1, FirstLate(q) - 1)
LastT(q) == LET T == {i \in 1..Len(Before(q)) : q[i] \in {"t", "nt"}} IN IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : j <= i
IdsIn(log, kd) == LET s == SelectSeq(log, LAMBDA e : e[1] = kd) IN [i \in 1..Len(s) |-> s[i][2]]
IdsOf(q, k, a, b) == LET s == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : q[i] \in k /\ i >= a /\ i <= b)
                     IN [i \in 1..Len(s) |-> ToString(s[i])]
Plain(q) == \A i \in 1..Len(q) : q[i] \notin {"nt", "nv", "ns"}
Ok(r) == r.bad = {}
Takes(q, a, o1, r) ==
    o1.name \notin {"new", "set"} \/
    /\ {e[1] : e \in ToSet(r.log)} \subseteq {"t", "v"}
    /\ o1.name = "set" /\ ~Ok(r) => r.o = a
    /\ \A i \in 1..Len(r.log) : r.log[i][2] \in {ToString(j) : j \in 1..FirstLate(q) - 1} \cup {"n" \o ToString(j) : j \in 1..FirstLate(q) - 1}
    /\ Plain(q) /\ Ok(r) /\ o1.in # <<>> /\ o1.in[1][2][1] = "s" =>
         /\ IdsIn(r.log, "t") = IdsOf(q, {"t"}, 1, FirstLate(q) - 1)
         /\ IdsIn(r.log, "v") = IdsOf(q, {"vx", "vd"}, 1, LastT(q))
         /\ r.o.f["a"] = S(o1.in[1][2][2] \o IdsIn(r.log, "t"))
    /\ ~Ok(r) => LastT(q) > 0
Checks(q, a, o1, r) ==
    o1.name # "validate" \/
    /\ r.o = a
    /\ (~a.new /\ a.mod = {}) => Ok(r)
    /\ Plain(q) => ToSet(IdsIn(r.log, "v")) \subseteq ToSet(IdsOf(q, {"vx", "vd"}, LastT(q) + 1, FirstLate(q) - 1))
    /\ Plain(q) /\ Ok(r) /\ a.new /\ a.f["a"] # Null => IdsIn(r.log, "v") = IdsOf(q, {"vx", "vd"}, LastT(q) + 1, FirstLate(q) - 1)
    /\ IdsIn(r.log, "s") = <<>>
Saves(q, a, o1, r) ==
    o1.name # "save" \/
    /\ Ok(r) <=> <<"write">> \in ToSet(r.log)
    /\ Ok(r) => r.log[Len(r.log)] = <<"write">>
    /\ Plain(q) /\ Ok(r) /\ (a.new \/ a.mod # {}) =>
         /\ IdsIn(r.log, "s") = IdsOf(q, {"s", "s0", "f"}, 1, Len(q))
         /\ "s0" \notin ToSet(q) /\ a.f["a"][1] = "s" => r.o.f["a"] = S(a.f["a"][2] \o IdsIn(r.log, "s"))
         /\ IdsIn(r.log, "o") = IdsOf(q, {"o"}, 1, Len(q))
    /\ ~a.new /\ a.mod = {} /\ "f" \notin ToSet(q) => r.o = a /\ r.log = <<<<"write">>>>
Broken(q, a, o1, r) == (IF Takes(q, a, o1, r) THEN {} ELSE {"takes"})
                       \cup (IF Checks(q, a, o1, r) THEN {} ELSE {"checks"})
                       \cup (IF Saves(q, a, o1, r) THEN {} ELSE {"saves"})

Words == UNION {[1..n -> Kinds] : n \in 0..MaxLen}
Init == /\ ms \in Words /\ o = None /\ op = [name |-> "init"] /\ out = [log |-> <<>>, bad |-> {}] /\ broken = {}
Next == /\ TLCGet("level") <= Depth
        /\ \E o1 \in Ops(o) :
             /\ Len(IF o = None \/ Tag(o.f["a"]) # "s" THEN <<>> ELSE o.f["a"][2]) < 6
             /\ LET r == Do(Sch(ms), o, o1)
                IN /\ o' = r.o /\ out' = [log |-> r.log, bad |-> r.bad]
                   /\ broken' = Broken(ms, o, o1, r)
             /\ op' = o1
        /\ UNCHANGED ms
Spec == Init /\ [][Next]_vars
View == <<ms, o, broken>>
Promised == broken = {}
Emit == Emitting => PrintT(<<"@@", ToJson([s |-> [m |-> ms, o |-> o], o |-> op', r |-> out', t |-> [m |-> ms, o |-> o'],
                                           c |-> Sch(ms)])>>)
=============================================================================
