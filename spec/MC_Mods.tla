------------------------------- MODULE MC_Mods -------------------------------
(* Every case: a chain, a sibling value and the values to try.               *)
EXTENDS JMods, Json
CONSTANTS Emitting
Model == JsonDeserialize("model.json")
Cases == Model.cases
VARIABLES c, v, stage, x, ok
vars == <<c, v, stage, x, ok>>
Ch == Cases[c].chain
Init == /\ c \in 1..Len(Cases)
        /\ \E i \in 1..Len(Cases[c].vals) : v = Cases[c].vals[i]
        /\ stage = "raw" /\ x = None /\ ok = TRUE
Feed == stage = "raw" /\ stage' = "in" /\ x' = Input(Ch, v, Cases[c].sib) /\ ok' = ok /\ UNCHANGED <<c, v>>
Poke == stage = "raw" /\ stage' = "set" /\ x' = v /\ ok' = ok /\ UNCHANGED <<c, v>>           \* plain assignment
Judge == /\ stage \in {"in", "set"} /\ x \notin {Err, Undef} /\ x[1] # "rnd"
         /\ stage' = stage \o "!" /\ ok' = Check(Ch, x, Cases[c].sib) /\ UNCHANGED <<c, v, x>>
Next == Feed \/ Poke \/ Judge
Spec == Init /\ [][Next]_vars

(* ------------------------------ the promises ------------------------------- *)
Is(n) == Len(Ch) = 1 /\ Ch[1].m = n
M == Ch[1]
With(n, as) == [m |-> n, a |-> as]
Acc(n, as, w) == Accepts(With(n, as), w, None)
App(n, as, w) == Apply(With(n, as), w, None)
Validators == {"min", "gte", "max", "lte", "gt", "lt", "range", "positive", "negative", "nonnegative", "nonpositive", "even", "odd",
               "minlength", "maxlength", "length", "alnum", "alpha", "digit", "numeric", "email", "url", "securepw", "match", "eq", "oneof",
               "hasprefix", "hassuffix", "isprefixof", "issuffixof", "str", "int", "bool"}
(* C16: null passes; values pass unchanged; the predicates say what they mean *)
Judged == stage \in {"in!", "set!"} /\ Len(Ch) = 1
Predicates ==
    /\ (Judged /\ M.m \in Validators /\ x = None) => ok
    /\ (stage = "in" /\ Len(Ch) = 1 /\ M.m \in Validators) => x = v
    /\ Judged =>
       CASE M.m \in {"min", "gte"} -> ok <=> (IsNum(x) => Lt(M.a[1], x) \/ Same(M.a[1], x))
         [] M.m \in {"max", "lte"} -> ok <=> (IsNum(x) => Lt(x, M.a[1]) \/ Same(M.a[1], x))
         [] M.m = "gt" -> IsNum(x) => (ok <=> ~Acc("max", M.a, x))
         [] M.m = "lt" -> IsNum(x) => (ok <=> ~Acc("min", M.a, x))
         [] M.m = "range" -> ok <=> (Acc("min", <<M.a[1]>>, x) /\ Acc("max", <<M.a[2]>>, x))
         [] M.m = "positive" -> ok <=> Acc("gt", <<IntV(0)>>, x)
         [] M.m = "negative" -> ok <=> Acc("lt", <<IntV(0)>>, x)
         [] M.m = "nonnegative" -> ok <=> Acc("min", <<IntV(0)>>, x)
         [] M.m = "nonpositive" -> ok <=> Acc("max", <<IntV(0)>>, x)
         [] M.m = "even" -> K(x) = "int" => (ok <=> \E q \in -600..600 : 2 * q = Nu(x))
         [] M.m = "odd" -> K(x) = "int" => (ok <=> \E q \in -600..600 : 2 * q + 1 = Nu(x))
         [] M.m = "length" -> ok <=> (Acc("minlength", <<M.a[1]>>, x) /\ Acc("maxlength", <<M.a[Len(M.a)]>>, x))
         [] M.m = "minlength" -> (IsSeq(x) /\ ok) <=> (IsSeq(x) /\ \E i \in 0..80 : Len(x[2]) = Nu(M.a[1]) + i)
         [] M.m = "neq" -> x # None => (ok <=> ~Acc("eq", M.a, x))
         [] M.m = "hasprefix" -> (IsSeq(x) /\ K(x) = K(M.a[1])) => (ok <=> \E i \in 0..Len(x[2]) : PyEq(M.a[1], [x EXCEPT ![2] = SubSeq(@, 1, i)]))
         [] M.m = "hassuffix" -> (IsSeq(x) /\ K(x) = K(M.a[1])) => (ok <=> \E i \in 0..Len(x[2]) : PyEq(M.a[1], [x EXCEPT ![2] = SubSeq(@, i + 1, Len(@))]))
         [] M.m = "isprefixof" -> (IsSeq(x) /\ K(x) = K(M.a[1])) => (ok <=> Acc("hasprefix", <<x>>, M.a[1]))
         [] M.m = "issuffixof" -> (IsSeq(x) /\ K(x) = K(M.a[1])) => (ok <=> Acc("hassuffix", <<x>>, M.a[1]))
         [] M.m = "alnum" -> IsStr(x) => (\A p \in {"alpha", "digit", "numeric"} : Acc(p, <<>>, x) => ok)
         [] M.m = "numeric" -> (IsStr(x) /\ Acc("digit", <<>>, x)) => ok
         [] OTHER -> TRUE
(* C17: algebra of the transformers                                           *)
InDomain == [abs |-> {"int", "flt"}, round |-> {"int", "flt"}, ceil |-> {"int", "flt"}, floor |-> {"int", "flt"}, add |-> {"int", "flt"},
             sub |-> {"int", "flt"}, mul |-> {"int", "flt"}, mod |-> {"int", "flt"}, div |-> {"int", "flt"}, pow |-> {"int", "flt"},
             sqrt |-> {"int", "flt"}, upperbond |-> {"int", "flt"}, lowerbond |-> {"int", "flt"}, inverse |-> {"bool"},
             trim |-> {"str"}, tolower |-> {"str"}, toupper |-> {"str"}, totitle |-> {"str"}, tocap |-> {"str"}, padstart |-> {"str"}, padend |-> {"str"},
             split |-> {"str"}, replace |-> {"str"}, replacer |-> {"str"}, reverse |-> {"str", "list"}, truncate |-> {"str", "list"}, len |-> {"str", "list"},
             append |-> {"str", "list"}, prepend |-> {"str", "list"}, insertat |-> {"str", "list"}, map |-> {"list"}, filter |-> {"list"}, join |-> {"list"}]
Idem == {"abs", "round", "ceil", "floor", "upperbond", "lowerbond", "trim", "tolower", "toupper", "totitle", "tocap", "truncate", "padstart", "padend", "tostr"}
Fed == stage = "in" /\ Len(Ch) = 1 /\ x \notin {Err, Undef} /\ x[1] # "rnd"
Algebra ==
    /\ (Fed /\ M.m \in DOMAIN InDomain /\ K(v) \notin InDomain[M.m]) => x = v
    /\ (Fed /\ M.m \in Idem) => Apply(M, x, None) = x
    /\ Fed =>
       CASE M.m = "reverse" -> Apply(M, x, None) = v
         [] M.m = "inverse" -> Apply(M, x, None) = v
         [] M.m = "add" -> IsNum(v) => Same(App("sub", M.a, x), v)
         [] M.m = "sub" -> IsNum(v) => Same(App("add", M.a, x), v)
         [] M.m = "mul" -> (IsNum(v) /\ IsP2(Nu(M.a[1]))) => LET q == Over(x, M.a[1]) IN q = Undef \/ Same(q, v)
         [] M.m = "div" -> IsNum(v) => LET q == Times(x, M.a[1]) IN q = Undef \/ Same(q, v)
         [] M.m = "mod" -> IsNum(v) => /\ \E q \in (-40 - Abs(Nu(v)) * 2)..(40 + Abs(Nu(v)) * 2) : Same(Plus(Times(IntV(Abs(q)), IF q < 0 THEN Neg(M.a[1]) ELSE M.a[1]), x), v) \/ Times(IntV(0), M.a[1]) = Undef
                                       /\ (Nu(x) # 0 => (Nu(x) > 0) = (Nu(M.a[1]) > 0))
         [] M.m = "sqrt" -> IsNum(v) => Same(Times(x, x), v)
         [] M.m = "floor" -> IsNum(v) => ~Lt(v, x) /\ Lt(v, Plus(x, IntV(1)))
         [] M.m = "ceil" -> IsNum(v) => ~Lt(x, v) /\ Lt(Minus(x, IntV(1)), v)
         [] M.m = "round" -> IsNum(v) => LET d == Minus(v, x) IN ~Lt(<<"flt", 1, 1>>, d) /\ ~Lt(d, <<"flt", -1, 1>>)
         [] M.m = "upperbond" -> IsNum(v) => ~Lt(M.a[1], x)
         [] M.m = "lowerbond" -> IsNum(v) => ~Lt(x, M.a[1])
         [] M.m = "truncate" -> IsSeq(v) => Len(x[2]) = Less(Len(v[2]), Nu(M.a[1])) /\ IsPre(x[2], v[2])
         [] M.m \in {"padstart", "padend"} -> IsStr(v) => (Len(M.a[1][2]) = 1 => Len(x[2]) = More(Len(v[2]), Nu(M.a[2])))
         [] M.m = "split" -> IsStr(v) => App("join", M.a, x) = v
         [] M.m \in {"append", "prepend", "insertat"} -> IsList(v) => Len(x[2]) = Len(v[2]) + 1
         [] M.m = "toint" -> IsStr(v) => App("toint", <<>>, App("tostr", <<>>, x)) = x
         [] M.m = "tofloat" -> IsStr(v) => App("tofloat", <<>>, App("tostr", <<>>, x)) = x
         [] M.m = "replace" -> (IsStr(v) /\ M.a[2][2] = <<>>) => Len(x[2]) <= Len(v[2])
         [] OTHER -> TRUE
(* chains compose left to right                                               *)
Compose == (stage = "in" /\ Len(Ch) = 2 /\ Ch[2].m \in Eager /\ Ch[1].m \in DOMAIN InDomain /\ x[1] # "rnd") =>
              LET t == Apply(Ch[1], v, Cases[c].sib)
              IN (t \notin {Err, Undef} /\ t[1] # "rnd") => x = Apply(Ch[2], t, Cases[c].sib)
Emit == Emitting => PrintT(<<"@@", ToJson([c |-> c, v |-> v, s |-> stage', x |-> x', ok |-> ok'])>>)
=============================================================================
