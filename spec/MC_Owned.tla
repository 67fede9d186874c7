----------------------------- MODULE MC_Owned ------------------------------
EXTENDS JOwned, Json
CONSTANTS Family, Depth, MaxLen, Emitting
VARIABLES st, op, out
vars == <<st, op, out>>

i1 == I(1)
i2 == I(2)
ln == L(<<I(1)>>)
dn == D(<<<<"k", I(1)>>>>)
NoneB == <<"none">>
Sl(a, b, c) == <<a, b, c>>

O(f, path, name) == [f |-> f, path |-> path, name |-> name]
OV(f, path, name, v) == O(f, path, name) @@ [v |-> v]
OI(f, path, name, i) == O(f, path, name) @@ [i |-> i]
OIV(f, path, name, i, v) == O(f, path, name) @@ [i |-> i, v |-> v]
OVS(f, path, name, vs) == O(f, path, name) @@ [vs |-> vs]
OK(f, path, name, k) == O(f, path, name) @@ [k |-> k]
OKV(f, path, name, k, v) == O(f, path, name) @@ [k |-> k, v |-> v]
OPS(f, path, name, ps) == O(f, path, name) @@ [ps |-> ps]
OS(f, path, name, s) == O(f, path, name) @@ [s |-> s]
OSV(f, path, name, s, vs) == O(f, path, name) @@ [s |-> s, vs |-> vs]

Slices == {Sl(a, b, c) : a \in {NoneB, I(1), I(-1)}, b \in {NoneB, I(1), I(-1), I(2)},
                         c \in {NoneB, I(2), I(-1), I(-2)}}

ListWrites(f, p, V, VS) ==
         {OV(f, p, "append", v) : v \in V}
    \cup {OVS(f, p, nm, vs) : nm \in {"extend", "extend_gen", "iadd", "iadd_gen"}, vs \in VS}
    \cup {OIV(f, p, "insert", i, v) : i \in {0, 1, -1, 5, -7}, v \in V}
    \cup {OV(f, p, "remove", v) : v \in V}
    \cup {OI(f, p, "pop", i) : i \in {0, 1, -1, -2, 7}}
    \cup {O(f, p, nm) : nm \in {"pop0", "clear", "reverse", "extend_self"}}
    \cup {OI(f, p, "sort", i) : i \in {0, 1}}
    \cup {OI(f, p, "imul", i) : i \in {-1, 0, 1, 2}}
    \cup {OIV(f, p, "setitem", i, v) : i \in {0, 1, -1, -2, 7, -7}, v \in V}
    \cup {OI(f, p, "delitem", i) : i \in {0, 1, -1, -2, 7, -7}}
ListSlices(f, p, VS) ==
         {OSV(f, p, "setslice", s, vs) : s \in Slices, vs \in VS}
    \cup {OS(f, p, "delslice", s) : s \in Slices}
    \cup {OS(f, p, "getslice", s) : s \in Slices}
ListReads(f, p, V) ==
         {OI(f, p, "getitem", i) : i \in {0, -1, 5}}
    \cup {OV(f, p, nm, v) : nm \in {"contains", "count", "index"}, v \in V}
    \cup {OVS(f, p, "add", <<v>>) : v \in V}
    \cup {OI(f, p, "mul", 2), O(f, p, "copy"), O(f, p, "len")}
DictWrites(f, p, V, K) ==
         {OKV(f, p, nm, k, v) : nm \in {"dset", "dpopd", "dsetdefault"}, k \in K, v \in V}
    \cup {OK(f, p, nm, k) : nm \in {"ddel", "dpop", "dsetdefault1"}, k \in K}
    \cup {O(f, p, nm) : nm \in {"dpopitem", "dclear"}}
    \cup {OPS(f, p, nm, ps) : nm \in {"dupdate", "dupdate_pairs", "dupdate_kw",
                                      "dior", "dior_pairs"},
            ps \in {<<>>} \cup {<<<<k, v>>>> : k \in K, v \in V}
                   \cup {<<<<k, i2>>, <<j, i1>>>> : k \in K, j \in K \ {"a"}}}
DictReads(f, p, K) ==
         {OK(f, p, nm, k) : nm \in {"dget", "dgetitem", "dcontains"}, k \in K}
    \cup {O(f, p, nm) : nm \in {"dlen", "dkeys", "dvalues", "dcopy"}}
    \cup {OPS(f, p, "dor", <<<<k, i2>>>>) : k \in K}

Marks == {O("x", <<>>, nm) : nm \in {"mark", "renew", "reset"}}
Assigns(V, VL, VD) ==
         {OV("x", <<>>, nm, v) : nm \in {"assign", "set", "update"}, v \in V}
    \cup {OV("l", <<>>, nm, v) : nm \in {"assign", "set", "update"}, v \in VL}
    \cup {OV("d", <<>>, nm, v) : nm \in {"assign", "set", "update"}, v \in VD}
    \cup {OV("t", <<>>, "assign", v) : v \in V}

NestP == {<<<<"i", 0>>>>, <<<<"i", 1>>>>, <<<<"i", 0>>, <<"i", 0>>>>, <<<<"i", 0>>, <<"k", "k">>>>}
NestD == {<<<<"k", "a">>>>, <<<<"k", "b">>>>, <<<<"k", "a">>, <<"i", 0>>>>, <<<<"k", "a">>, <<"k", "k">>>>}
Few(f, p) == {OV(f, p, "append", i2), OV(f, p, "append", ln), OIV(f, p, "insert", -1, dn),
              OIV(f, p, "setitem", 0, ln), OIV(f, p, "setitem", -1, i1), O(f, p, "pop0"), OI(f, p, "pop", 0),
              OVS(f, p, "iadd", <<dn, i1>>), OI(f, p, "imul", 2), O(f, p, "clear"), O(f, p, "reverse"),
              OKV(f, p, "dset", "k", ln), OKV(f, p, "dset", "k", i2), OK(f, p, "ddel", "k"),
              OPS(f, p, "dupdate", <<<<"k", dn>>>>), OKV(f, p, "dsetdefault", "z", ln),
              OPS(f, p, "dior", <<<<"z", ln>>>>), OK(f, p, "dpop", "k")}

Ops ==
    CASE Family = "list" ->
            ListWrites("l", <<>>, {i1, i2}, {<<>>, <<i2>>, <<i2, i1>>})
            \cup ListReads("l", <<>>, {i1, i2}) \cup Marks
      [] Family = "slice" ->
            ListSlices("l", <<>>, {<<>>, <<i2>>, <<i2, I(3)>>, <<i1, i2, I(3)>>})
      [] Family = "dict" ->
            DictWrites("d", <<>>, {i1, i2, dn}, {"a", "b"})
            \cup DictReads("d", <<>>, {"a", "b"}) \cup Marks
      [] Family = "nest" ->
            UNION {Few("l", p) : p \in NestP \cup {<<>>}}
            \cup UNION {Few("d", p) : p \in NestD \cup {<<>>}}
            \cup {O("x", <<>>, nm) : nm \in {"mark", "reset"}}
            \cup {OV("l", <<>>, "assign", L(<<ln>>)), OV("d", <<>>, "assign", D(<<<<"a", dn>>>>))}
      [] Family = "obj" ->
            Assigns({i1, i2, NoneB}, {NoneB, L(<<>>), L(<<i1>>), L(<<ln>>)},
                    {NoneB, D(<<>>), D(<<<<"a", i1>>>>), D(<<<<"a", dn>>>>)})
            \cup Marks \cup {OV("l", <<>>, "swap", L(<<i2>>)), OV("l", <<>>, "append", i1), OKV("d", <<>>, "dset", "b", i2),
                             OV("l", <<<<"i", 0>>>>, "append", i2),
                             OKV("d", <<<<"k", "a">>>>, "dset", "k", i2)}

Starts ==
    CASE Family = "list" -> {[l |-> L(<<i1, i2>>), d |-> D(<<>>), x |-> i1, t |-> NoneB]}
      [] Family = "slice" -> {[l |-> L([k \in 1..n |-> I(k)]), d |-> D(<<>>), x |-> i1, t |-> NoneB]
                              : n \in {0, 1, 3, 4}}
      [] Family = "dict" -> {[l |-> L(<<>>), d |-> D(<<<<"a", i1>>>>), x |-> i1, t |-> NoneB]}
      [] Family = "nest" -> {[l |-> L(<<ln, dn>>), d |-> D(<<<<"a", ln>>>>), x |-> i1, t |-> NoneB],
                             [l |-> L(<<L(<<dn>>)>>), d |-> D(<<<<"a", D(<<<<"k", ln>>>>)>>>>),
                              x |-> i1, t |-> NoneB]}
      [] Family = "obj" -> {[l |-> L(<<ln>>), d |-> D(<<<<"a", dn>>>>), x |-> i1, t |-> NoneB]}

Init == /\ st \in {InitSt(n, r, f) : n \in BOOLEAN, r \in BOOLEAN, f \in Starts}
        /\ op = O("x", <<>>, "init") /\ out = <<"ok", NoneB>>
Next == /\ TLCGet("level") <= Depth
        /\ \E o \in Ops :
           /\ Applicable(st, o)
           /\ LET r == Step(st, o) IN st' = r.st /\ out' = r.out
           /\ op' = o
Spec == Init /\ [][Next]_vars
View == st

RECURSIVE Size(_)
Size(v) == IF IsContainer(v)
           THEN FoldSeq(LAMBDA e, acc : Size(IF IsList(v) THEN e ELSE e[2]) + acc, 1, v[2])
           ELSE 1
Bound == TLCGet("level") <= Depth
SizeOk(s) == \A x \in Fields : Size(s.f[x]) <= MaxLen
Emit == /\ SizeOk(st')
        /\ (Emitting => PrintT(<<"@@", ToJson([s |-> st, o |-> op', r |-> out', t |-> st'])>>))

Tracking == InvTracking(st)
ResetOk == InvReset(st)
Unchanged == [][ActUnchanged(st, op', out', st')]_vars
=============================================================================
