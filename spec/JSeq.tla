-------------------------------- MODULE JSeq --------------------------------
(* Python list operations on sequences of plain items (used for lists of
   referenced objects, where items are compared by identity).               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
SNorm(i, n) == IF i < 0 THEN i + n ELSE i
SClamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
SWithout(s, P) == LET idx == SetToSortSeq({i \in 1..Len(s) : i \notin P}, <)
                  IN [j \in 1..Len(idx) |-> s[idx[j]]]
SPos(s, x) == LET P == {i \in 1..Len(s) : s[i] = x} IN IF P = {} THEN 0 ELSE Min(P)
(* result: [exc, c, ret]; ret is a sequence of items (<<>> for None)         *)
SOk(c, r) == [exc |-> "", c |-> c, ret |-> r]
SExc(e, c) == [exc |-> e, c |-> c, ret |-> <<>>]
SeqOp(op, c) ==
    LET n == Len(c) IN
    CASE op.name = "append" -> SOk(Append(c, op.p), <<>>)
      [] op.name \in {"extend", "iadd"} -> SOk(c \o op.ps, <<>>)
      [] op.name = "insert" ->
            LET k == SClamp(SNorm(op.i, n), 0, n)
            IN SOk(SubSeq(c, 1, k) \o <<op.p>> \o SubSeq(c, k + 1, n), <<>>)
      [] op.name = "remove" ->
            LET k == SPos(c, op.p)
            IN IF k = 0 THEN SExc("ValueError", c) ELSE SOk(SWithout(c, {k}), <<>>)
      [] op.name = "pop" ->
            LET k == SNorm(op.i, n)
            IN IF k \notin 0..(n - 1) THEN SExc("IndexError", c)
               ELSE SOk(SWithout(c, {k + 1}), <<c[k + 1]>>)
      [] op.name = "clear" -> SOk(<<>>, <<>>)
      [] op.name = "reverse" -> SOk([i \in 1..n |-> c[n + 1 - i]], <<>>)
      [] op.name = "setitem" ->
            LET k == SNorm(op.i, n)
            IN IF k \notin 0..(n - 1) THEN SExc("IndexError", c)
               ELSE SOk([c EXCEPT ![k + 1] = op.p], <<>>)
      [] op.name = "delitem" ->
            LET k == SNorm(op.i, n)
            IN IF k \notin 0..(n - 1) THEN SExc("IndexError", c)
               ELSE SOk(SWithout(c, {k + 1}), <<>>)
      [] op.name = "setslice" ->       \* [a:b] = ps, 0 <= a <= b
            LET a == SClamp(op.a, 0, n) b == SClamp(op.b, a, n)
            IN SOk(SubSeq(c, 1, a) \o op.ps \o SubSeq(c, b + 1, n), <<>>)
      [] op.name = "delslice" ->
            LET a == SClamp(op.a, 0, n) b == SClamp(op.b, a, n)
            IN SOk(SubSeq(c, 1, a) \o SubSeq(c, b + 1, n), <<>>)
SeqOpNames == {"append", "extend", "iadd", "insert", "remove", "pop", "clear",
               "reverse", "setitem", "delitem", "setslice", "delslice"}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
=============================================================================
