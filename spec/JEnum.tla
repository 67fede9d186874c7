-------------------------------- MODULE JEnum ---------------------------------
(* Enum fields: which inputs denote which member, and how members are written. *)
(*                                                                             *)
(* An enum is a sequence of [n |-> name (code points), v |-> value]; entries    *)
(* with the value of an earlier entry are other names of that member.          *)
(* Values <<"none">>, <<"bool", b>>, <<"int", n>>, <<"str", codes>>,           *)
(*        <<"list", ...>>, <<"m", i>> member i, <<"foreign">> of another enum  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"none">>
Err == <<"err">>
K(v) == v[1]
Dn(c) == IF c \in 65..90 \/ c = 201 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> Dn(s[i])]
AsNum(v) == IF K(v) = "bool" THEN <<"int", IF v[2] THEN 1 ELSE 0>> ELSE v
Eq(a, b) == LET x == AsNum(a) y == AsNum(b) IN K(x) = K(y) /\ x = y
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Canon(E, i) == Least({j \in 1..Len(E) : Eq(E[j].v, E[i].v)})
Members(E) == {i \in 1..Len(E) : Canon(E, i) = i}

(* the accepted and the written form, settled by the marks from left to right: *)
(* a form mark adds its form, and an enum mark without any before it means the *)
(* name                                                                        *)
AllForms == {"name", "value", "lname"}
Step(acc, m) ==
    CASE m = "enum" -> IF acc.unset THEN [acc EXCEPT !.in = {"name"}, !.unset = FALSE] ELSE acc
      [] m = "inputname" -> [acc EXCEPT !.in = @ \cup {"name"}, !.unset = FALSE]
      [] m = "inputlname" -> [acc EXCEPT !.in = @ \cup {"lname"}, !.unset = FALSE]
      [] m = "inputvalue" -> [acc EXCEPT !.in = @ \cup {"value"}, !.unset = FALSE]
      [] m = "inputall" -> [acc EXCEPT !.in = AllForms, !.unset = FALSE]
      [] m = "outputname" -> [acc EXCEPT !.out = "name"]
      [] m = "outputlname" -> [acc EXCEPT !.out = "lname"]
      [] m = "outputvalue" -> [acc EXCEPT !.out = "value"]
      [] OTHER -> acc
RECURSIVE Steps(_, _)
Steps(acc, ms) == IF ms = <<>> THEN acc ELSE Steps(Step(acc, Head(ms)), Tail(ms))
Forms(ms) == Steps([in |-> {}, out |-> "name", unset |-> TRUE], ms)

(* -------------------------------- reading ----------------------------------- *)
By(E, form, v) ==        \* the entries v denotes in one form
    CASE form = "value" -> {i \in 1..Len(E) : Eq(E[i].v, v)}
      [] form = "name" -> {i \in 1..Len(E) : K(v) = "str" /\ E[i].n = v[2]}
      [] form = "lname" -> {i \in 1..Len(E) : K(v) = "str" /\ Lower(E[i].n) = Lower(v[2])}
Order == <<"value", "name", "lname">>
Input(E, ms, v) ==
    IF K(v) = "none" \/ K(v) = "m" THEN v
    ELSE LET fs == Forms(ms).in
             hit == {k \in 1..3 : Order[k] \in fs /\ By(E, Order[k], v) # {}}
         IN IF hit = {} THEN Err ELSE <<"m", Canon(E, Least(By(E, Order[Least(hit)], v)))>>
Check(v) == K(v) \in {"none", "m"}
(* -------------------------------- writing ----------------------------------- *)
Written(E, form, i) == CASE form = "value" -> E[i].v
                         [] form = "name" -> <<"str", E[i].n>>
                         [] form = "lname" -> <<"str", Lower(E[i].n)>>
Json(E, ms, v) == IF v = None THEN None ELSE Written(E, Forms(ms).out, v[2])
=============================================================================
