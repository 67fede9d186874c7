-------------------------------- MODULE JUser ---------------------------------
(* The user's configuration: config.json, environment values, key paths.        *)
(* Texts are sequences of one-character strings.  Trees:                        *)
(*   <<"text", s>> <<"num", n>> <<"flag", b>> <<"null">> <<"list", trees>>      *)
(*   <<"map", sequence of <<key, tree>> >>                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Null == <<"null">>
LowerC == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperC == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
Lowers == ToSet(LowerC) Uppers == ToSet(UpperC) DigitSet == ToSet(Digits)
IndexIn(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c
Low(c) == IF c \in Uppers THEN LowerC[IndexIn(UpperC, c)] ELSE c

(* keys in snake case: a word starts at a capital after a small letter or digit,
   and at the last capital of a run that a small letter follows               *)
Starts(k, i) == /\ i > 1 /\ k[i] \in Uppers
                /\ \/ k[i - 1] \in Lowers \cup DigitSet
                   \/ k[i - 1] \in Uppers /\ i < Len(k) /\ k[i + 1] \in Lowers
Snake(k) == FlattenSeq([i \in 1..Len(k) |-> IF Starts(k, i) THEN <<"_", Low(k[i])>> ELSE <<Low(k[i])>>])

(* environ['NAME'] and environ["NAME"]                                          *)
Head8 == <<"e","n","v","i","r","o","n","[">>
IsEnv(s) == Len(s) > 11 /\ SubSeq(s, 1, 8) = Head8 /\ s[9] \in {"'", "\""} /\ s[Len(s) - 1] = s[9] /\ s[Len(s)] = "]"
EnvName(s) == SubSeq(s, 10, Len(s) - 2)
Looked(env, n) == {i \in 1..Len(env) : env[i][1] = n}
RECURSIVE Missing(_, _), Load(_, _)
Missing(T, env) == CASE T[1] = "text" -> IsEnv(T[2]) /\ Looked(env, EnvName(T[2])) = {}
                     [] T[1] = "list" -> \E i \in 1..Len(T[2]) : Missing(T[2][i], env)
                     [] T[1] = "map" -> \E i \in 1..Len(T[2]) : Missing(T[2][i][2], env)
                     [] OTHER -> FALSE
Load(T, env) == CASE T[1] = "text" -> IF IsEnv(T[2]) THEN <<"text", env[CHOOSE i \in Looked(env, EnvName(T[2])) : TRUE][2]>> ELSE T
                  [] T[1] = "list" -> <<"list", [i \in 1..Len(T[2]) |-> Load(T[2][i], env)]>>
                  [] T[1] = "map" -> <<"map", [i \in 1..Len(T[2]) |-> <<Snake(T[2][i][1]), Load(T[2][i][2], env)>>]>>
                  [] OTHER -> T

(* paths are sequences of keys                                                  *)
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + (IndexIn(Digits, s[Len(s)]) - 1)
IsIndex(k) == k # <<>> /\ \A i \in 1..Len(k) : k[i] \in DigitSet
Child(T, k) ==
    CASE T[1] = "list" -> IF IsIndex(k) /\ Value(k) < Len(T[2]) THEN T[2][Value(k) + 1] ELSE Null
      [] T[1] = "map" -> LET S == {i \in 1..Len(T[2]) : T[2][i][1] = k} IN IF S = {} THEN Null ELSE T[2][CHOOSE i \in S : TRUE][2]
      [] OTHER -> Null
RECURSIVE Get(_, _)
Get(T, p) == IF p = <<>> THEN T ELSE Get(Child(T, Head(p)), Tail(p))

(* every path of a tree, with what lies there                                   *)
RECURSIVE Paths(_), Numeral(_)
Numeral(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Numeral(n \div 10) \o <<Digits[(n % 10) + 1]>>
Paths(T) == {<<>>} \cup (CASE T[1] = "list" -> UNION {{<<Numeral(i - 1)>> \o p : p \in Paths(T[2][i])} : i \in 1..Len(T[2])}
                           [] T[1] = "map" -> UNION {{<<T[2][i][1]>> \o p : p \in Paths(T[2][i][2])} : i \in 1..Len(T[2])}
                           [] OTHER -> {})
=============================================================================
