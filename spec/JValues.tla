------------------------------ MODULE JValues ------------------------------
(* The value universe shared by every module.

   A runtime value is a tagged tuple, so that TLC's equality is always defined
   (comparison stops at the tag when kinds differ):

     <<"none">>  <<"bool",b>>  <<"int",n>>  <<"str",s>>
     <<"list", <<v1,...>>>>     <<"dict", <<<<k1,v1>>,...>>>>  (k: string)

   Owned containers (module JOwned) carry a third component, the key path they
   were attached under.  `Plain` forgets it.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

None == <<"none">>
I(n) == <<"int", n>>
S(s) == <<"str", s>>
B(b) == <<"bool", b>>
L(items) == <<"list", items>>
D(pairs) == <<"dict", pairs>>

Tag(v) == v[1]
IsNone(v) == Tag(v) = "none"
IsList(v) == Tag(v) = "list"
IsDict(v) == Tag(v) = "dict"
IsContainer(v) == Tag(v) \in {"list", "dict"}
Items(v) == v[2]

MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

RECURSIVE Plain(_)
Plain(v) ==
    CASE IsList(v) -> <<"list", [i \in 1..Len(v[2]) |-> Plain(v[2][i])]>>
      [] IsDict(v) -> <<"dict", [i \in 1..Len(v[2]) |->
                                   <<v[2][i][1], Plain(v[2][i][2])>>]>>
      [] OTHER -> v

(* Python equality: dict order is irrelevant, list order is not.            *)
DKeys(pairs) == {pairs[i][1] : i \in 1..Len(pairs)}
DHas(pairs, k) == k \in DKeys(pairs)
DIdx(pairs, k) == CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k
DGet(pairs, k) == pairs[DIdx(pairs, k)][2]

RECURSIVE PyEq(_, _)
PyEq(a, b) ==
    CASE Tag(a) # Tag(b) -> FALSE
      [] IsList(a) -> /\ Len(a[2]) = Len(b[2])
                      /\ \A i \in 1..Len(a[2]) : PyEq(a[2][i], b[2][i])
      [] IsDict(a) -> /\ DKeys(a[2]) = DKeys(b[2])
                      /\ \A k \in DKeys(a[2]) : PyEq(DGet(a[2], k), DGet(b[2], k))
      [] OTHER -> a = b

(* Removing / replacing in sequences, 1-based positions.                    *)
Without(s, P) == LET keep == {i \in 1..Len(s) : i \notin P}
                     idx == SetToSortSeq(keep, <)
                 IN [j \in 1..Len(idx) |-> s[idx[j]]]
DPut(pairs, k, v) == IF DHas(pairs, k)
                     THEN [pairs EXCEPT ![DIdx(pairs, k)] = <<k, v>>]
                     ELSE Append(pairs, <<k, v>>)
DDel(pairs, k) == Without(pairs, {DIdx(pairs, k)})
RECURSIVE DPutAll(_, _)
DPutAll(pairs, new) == IF new = <<>> THEN pairs
                       ELSE DPutAll(DPut(pairs, new[1][1], new[1][2]), Tail(new))
=============================================================================
