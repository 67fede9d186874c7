-------------------------------- MODULE JTypes --------------------------------
(* Type annotations: their grammar, what they mean, and how a field of that     *)
(* type reads, checks and writes values.                                        *)
(*                                                                              *)
(* Annotations (syntax trees)                                                   *)
(*   <<"t", name>>  int str float bool date datetime Any, the class Leaf, the   *)
(*                  enum Kind, or a name that denotes nothing                   *)
(*   <<"l", T>> list, <<"d", T>> dict with text keys, <<"o", T>> optional,      *)
(*   <<"u", <<T1, ...>>>> union                                                 *)
(* Values <<"none">>, <<"int", n>>, <<"flt", n>>, <<"bool", b>>, <<"str", s>>,  *)
(*   <<"date">>, <<"dt">> (of the text "2020-01-02"), <<"list", vs>>,           *)
(*   <<"dict", pairs>>, <<"m", name>> enum member, <<"obj", v>> a Leaf whose    *)
(*   field n holds v                                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == <<"none">>
Err == <<"err">>
Rej == <<"rejected">>
K(v) == v[1]
Prims == {"int", "str", "float", "bool", "date", "datetime", "Any"}
Known == Prims \cup {"Leaf", "Kind"}
DateTexts == {"2020-01-02", "2020-01-02T00:00:00.000Z"}

(* ------------------------------ the meaning -------------------------------- *)
(* [opt, alts]: whether null is a value of it, and the alternatives in order,   *)
(* each <<"t", name>>, <<"l", meaning>> or <<"d", meaning>>                     *)
RECURSIVE Mean(_)
Distinct(s) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), <<>>, s)
Mean(T) ==
    CASE T[1] = "t" -> [opt |-> FALSE, alts |-> <<T>>]
      [] T[1] \in {"l", "d"} -> [opt |-> FALSE, alts |-> <<<<T[1], Mean(T[2])>>>>]
      [] T[1] = "o" -> [opt |-> TRUE, alts |-> Mean(T[2]).alts]
      [] T[1] = "u" -> LET ms == [i \in 1..Len(T[2]) |-> Mean(T[2][i])]
                       IN [opt |-> \E i \in 1..Len(ms) : ms[i].opt,
                           alts |-> Distinct(FlattenSeq([i \in 1..Len(ms) |-> ms[i].alts]))]
RECURSIVE Unknown(_)
Unknown(T) == CASE T[1] = "t" -> T[2] \notin Known
                [] T[1] = "u" -> \E i \in 1..Len(T[2]) : Unknown(T[2][i])
                [] OTHER -> Unknown(T[2])

(* ------------------------------- spellings --------------------------------- *)
(* a style says how unions, optionals, lists and dicts are written              *)
RECURSIVE Spell(_, _), Commas(_), Bars(_)
Commas(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<",">> \o Commas(Tail(ss))
Bars(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<"|">> \o Bars(Tail(ss))
Spell(T, st) ==
    CASE T[1] = "t" -> <<T[2]>>
      [] T[1] = "l" -> <<st.list, "[">> \o Spell(T[2], st) \o <<"]">>
      [] T[1] = "d" -> <<st.dict, "[", "str", ",">> \o Spell(T[2], st) \o <<"]">>
      [] T[1] = "u" -> LET ss == [i \in 1..Len(T[2]) |-> Spell(T[2][i], st)]
                       IN IF st.union = "|" THEN Bars(ss) ELSE <<"Union", "[">> \o Commas(ss) \o <<"]">>
      [] T[1] = "o" -> CASE st.opt = "Optional" -> <<"Optional", "[">> \o Spell(T[2], st) \o <<"]">>
                         [] st.opt = "|None" -> Spell(T[2], st) \o <<"|", "None">>
                         [] st.opt = "None|" -> <<"None", "|">> \o Spell(T[2], st)
                         [] st.opt = "Union" -> <<"Union", "[">> \o Spell(T[2], st) \o <<",", "None", "]">>
(* and the grammar reads every spelling as the same type: [t, rest] with        *)
(* <<"t", "None">> for the empty alternative                                    *)
RECURSIVE PUnion(_), PAtom(_), PArgs(_)
Opted(T) == LET ms == IF T[1] = "u" THEN T[2] ELSE <<T>>
                nn == SelectSeq(ms, LAMBDA m : m # <<"t", "None">>)
                core == IF Len(nn) = 1 THEN nn[1] ELSE <<"u", nn>>
            IN IF Len(nn) = Len(ms) THEN core ELSE <<"o", core>>
PArgs(s) == LET a == PUnion(s) IN
            IF a.rest # <<>> /\ Head(a.rest) = "," THEN LET b == PArgs(Tail(a.rest)) IN [ts |-> <<a.t>> \o b.ts, rest |-> b.rest]
            ELSE [ts |-> <<a.t>>, rest |-> a.rest]
PAtom(s) == IF Len(s) > 1 /\ s[2] = "["
            THEN LET a == PArgs(SubSeq(s, 3, Len(s)))
                     rest == Tail(a.rest)          \* the closing bracket
                 IN CASE s[1] \in {"list", "List"} -> [t |-> <<"l", a.ts[1]>>, rest |-> rest]
                      [] s[1] \in {"dict", "Dict"} -> [t |-> <<"d", a.ts[2]>>, rest |-> rest]
                      [] s[1] = "Optional" -> [t |-> <<"o", a.ts[1]>>, rest |-> rest]
                      [] s[1] = "Union" -> [t |-> Opted(IF Len(a.ts) = 1 THEN a.ts[1] ELSE <<"u", a.ts>>), rest |-> rest]
            ELSE [t |-> <<"t", s[1]>>, rest |-> Tail(s)]
PUnion(s) ==
             LET a == PAtom(s) IN
             IF a.rest # <<>> /\ Head(a.rest) = "|"
             THEN LET b == PUnion(Tail(a.rest))
                      bs == IF b.bar THEN b.ms ELSE <<b.t>>
                  IN [t |-> Opted(<<"u", <<a.t>> \o bs>>), ms |-> <<a.t>> \o bs, bar |-> TRUE, rest |-> b.rest]
             ELSE [t |-> a.t, ms |-> <<a.t>>, bar |-> FALSE, rest |-> a.rest]
Parse(s) == PUnion(s).t

(* ------------------------------ fields of a type ---------------------------- *)
RECURSIVE Read(_, _), Ok(_, _), ReadAs(_, _), OkAs(_, _), Write(_, _), WriteAs(_, _)
Bad(rs) == IF \E i \in 1..Len(rs) : rs[i] = Rej THEN Rej ELSE IF \E i \in 1..Len(rs) : rs[i] = Err THEN Err ELSE None
ReadAs(A, v) ==                     \* v is not null
    CASE A[1] = "l" -> IF K(v) # "list" THEN v
                       ELSE LET rs == [i \in 1..Len(v[2]) |-> Read(A[2], v[2][i])] IN IF Bad(rs) # None THEN Bad(rs) ELSE <<"list", rs>>
      [] A[1] = "d" -> IF K(v) # "dict" THEN v
                       ELSE LET rs == [i \in 1..Len(v[2]) |-> Read(A[2], v[2][i][2])]
                            IN IF Bad(rs) # None THEN Bad(rs) ELSE <<"dict", [i \in 1..Len(rs) |-> <<v[2][i][1], rs[i]>>]>>
      [] A[2] = "float" -> IF K(v) = "int" THEN <<"flt", v[2]>> ELSE v
      [] A[2] \in {"date", "datetime"} -> LET r == IF A[2] = "date" THEN <<"date">> ELSE <<"dt">> IN
                IF K(v) = "str" THEN (IF v[2] \in DateTexts THEN r ELSE Err) ELSE IF K(v) \in {"date", "dt"} THEN r ELSE v
      [] A[2] = "Kind" -> IF K(v) = "m" THEN v ELSE IF K(v) = "str" /\ v[2] \in {"A", "B"} THEN <<"m", v[2]>> ELSE Err
      [] A[2] = "Leaf" -> IF K(v) = "dict" THEN IF \E i \in 1..Len(v[2]) : v[2][i][1] # "n" THEN Err ELSE LET ns == SelectSeq(v[2], LAMBDA p : p[1] = "n") IN <<"obj", IF ns = <<>> THEN None ELSE ns[1][2]>> ELSE v
      [] A[2] \in Prims -> v
      [] OTHER -> Rej
Read(M, v) ==
    IF v = None THEN None
    ELSE IF Len(M.alts) = 1 THEN ReadAs(M.alts[1], v)
    ELSE LET rs == [i \in 1..Len(M.alts) |-> ReadAs(M.alts[i], v)]
             can == {i \in 1..Len(rs) : rs[i] # Err}                       \* the first alternative that accepts it,
             fit == {i \in can : OkAs(M.alts[i], rs[i])}                  \* or else the first that can read it
             first(S) == rs[CHOOSE i \in S : \A j \in S : i <= j]
         IN IF \E i \in 1..Len(M.alts) : M.alts[i][1] = "t" /\ M.alts[i][2] \notin Known THEN Rej
            ELSE IF \E i \in 1..Len(rs) : rs[i] = Rej THEN Rej
            ELSE IF fit # {} THEN first(fit) ELSE IF can # {} THEN first(can) ELSE v
OkAs(A, v) ==
    CASE A[1] = "l" -> K(v) = "list" /\ \A i \in 1..Len(v[2]) : Ok(A[2], v[2][i])
      [] A[1] = "d" -> K(v) = "dict" /\ \A i \in 1..Len(v[2]) : Ok(A[2], v[2][i][2])
      [] A[2] = "int" -> K(v) = "int"
      [] A[2] = "str" -> K(v) = "str"
      [] A[2] = "bool" -> K(v) = "bool"
      [] A[2] = "float" -> K(v) = "flt"
      [] A[2] = "date" -> K(v) \in {"date", "dt"}
      [] A[2] = "datetime" -> K(v) = "dt"
      [] A[2] = "Kind" -> K(v) = "m"
      [] A[2] = "Leaf" -> K(v) = "obj" /\ K(v[2]) \in {"none", "int"}
      [] OTHER -> TRUE
Ok(M, v) == IF v = None THEN M.opt ELSE \E i \in 1..Len(M.alts) : OkAs(M.alts[i], v)
WriteAs(A, v) ==
    CASE A[1] = "l" -> <<"list", [i \in 1..Len(v[2]) |-> Write(A[2], v[2][i])]>>
      [] A[1] = "d" -> <<"dict", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Write(A[2], v[2][i][2])>>]>>
      [] A[2] \in {"date", "datetime"} -> <<"str", "2020-01-02T00:00:00.000Z">>
      [] A[2] = "Kind" -> <<"str", v[2]>>
      [] A[2] = "Leaf" -> <<"dict", IF v[2] = None THEN <<>> ELSE <<<<"n", v[2]>>>>>>
      [] OTHER -> v
Write(M, v) == IF v = None THEN None
               ELSE WriteAs(M.alts[CHOOSE i \in 1..Len(M.alts) : OkAs(M.alts[i], v) /\ \A j \in 1..(i - 1) : ~OkAs(M.alts[j], v)], v)
=============================================================================
