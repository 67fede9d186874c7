-------------------------------- MODULE JMods --------------------------------
(* What every validating and transforming mark of a type description means.  *)
(*                                                                           *)
(* Values  <<"none">>, <<"bool", b>>, <<"int", n>>, <<"flt", n, k>> (n/2^k,  *)
(*         lowest terms), <<"str", codes>>, <<"list", values>>,              *)
(*         <<"tuple", values>>, <<"salted", codes>>                          *)
(* Marks   [m, a (argument values), ...]; "map", "filter", "transform" and   *)
(*         "validate" carry either a chain (field chain) or one of two       *)
(*         callbacks: "plus" (adds a number), "gt" (greater than a number)   *)
(* Results <<"err">> validation error, <<"undef">> outside the documented    *)
(*         domain, <<"rnd", ...>> any value of the described set             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

None == <<"none">>
Err == <<"err">>
Undef == <<"undef">>
K(v) == v[1]
IsNum(v) == K(v) \in {"int", "flt"}
IsStr(v) == K(v) = "str"
IsList(v) == K(v) = "list"
IsSeq(v) == K(v) \in {"str", "list"}
Str(s) == <<"str", s>>
IntV(n) == <<"int", n>>
Abs(n) == IF n < 0 THEN -n ELSE n
Less(a, b) == IF a < b THEN a ELSE b
More(a, b) == IF a < b THEN b ELSE a
RECURSIVE Pow2(_), PowI(_, _)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
PowI(b, e) == IF e = 0 THEN 1 ELSE b * PowI(b, e - 1)

(* --------------------------------- numbers -------------------------------- *)
RECURSIVE Low(_, _)
Low(n, k) == IF k > 0 /\ n % 2 = 0 THEN Low(n \div 2, k - 1) ELSE <<"flt", n, k>>
Nu(v) == v[2]                       \* numerator and scale
Sc(v) == IF K(v) = "int" THEN 0 ELSE v[3]
Lt(a, b) == Nu(a) * Pow2(Sc(b)) < Nu(b) * Pow2(Sc(a))
Same(a, b) == Nu(a) * Pow2(Sc(b)) = Nu(b) * Pow2(Sc(a))
Num(isint, n, k) == IF isint THEN IntV(n) ELSE Low(n, k)
BothInt(a, b) == K(a) = "int" /\ K(b) = "int"
Plus(a, b) == LET k == More(Sc(a), Sc(b)) IN Num(BothInt(a, b), Nu(a) * Pow2(k - Sc(a)) + Nu(b) * Pow2(k - Sc(b)), k)
Neg(a) == [a EXCEPT ![2] = -@]
Minus(a, b) == Plus(a, Neg(b))
Zeroish(r, a, b) == IF K(r) = "flt" /\ Nu(r) = 0 /\ (Nu(a) < 0 \/ Nu(b) < 0) THEN Undef ELSE r   \* the sign of zero
Times(a, b) == Zeroish(Num(BothInt(a, b), Nu(a) * Nu(b), Sc(a) + Sc(b)), a, b)
IsP2(n) == \E j \in 0..12 : Abs(n) = Pow2(j)
Log2(n) == CHOOSE j \in 0..12 : Abs(n) = Pow2(j)
Over(a, b) == IF ~IsP2(Nu(b)) THEN Undef
              ELSE Zeroish(Low((IF Nu(b) < 0 THEN -1 ELSE 1) * Nu(a) * Pow2(Sc(b)), Sc(a) + Log2(Nu(b))), a, b)
ModI(x, y) == IF y > 0 THEN x % y ELSE -((-x) % (-y))
Rem(a, b) == IF Nu(b) = 0 THEN Undef
             ELSE LET k == More(Sc(a), Sc(b))
                  IN Zeroish(Num(BothInt(a, b), ModI(Nu(a) * Pow2(k - Sc(a)), Nu(b) * Pow2(k - Sc(b))), k), a, b)
Floor(v) == Nu(v) \div Pow2(Sc(v))
Ceil(v) == -((-Nu(v)) \div Pow2(Sc(v)))
Round(v) == LET f == Floor(v)
                r == Nu(v) - f * Pow2(Sc(v))
            IN IF 2 * r < Pow2(Sc(v)) THEN f ELSE IF 2 * r > Pow2(Sc(v)) THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Sqrt(v) == LET n == IF Sc(v) % 2 = 0 THEN Nu(v) ELSE 2 * Nu(v)
               k == (Sc(v) + 1) \div 2
               rs == {r \in 0..200 : r * r = n}
           IN IF Nu(v) < 0 THEN Err ELSE IF rs = {} THEN Undef ELSE Low(CHOOSE r \in rs : TRUE, k)
Power(b, v) ==           \* b to the power of v
    IF Sc(v) # 0 \/ Abs(Nu(v)) > 5 \/ Abs(Nu(b)) > 8 THEN Undef
    ELSE LET e == Abs(Nu(v))
             p == Num(BothInt(b, v) /\ Nu(v) >= 0, PowI(Nu(b), e), Sc(b) * e)
         IN IF Nu(v) >= 0 THEN p ELSE IF Nu(b) = 0 THEN Undef ELSE Over(<<"flt", 1, 0>>, p)

(* ----------------------------------- text --------------------------------- *)
Digit(c) == c \in 48..57
Lower(c) == c \in 97..122
Upper(c) == c \in 65..90
Letter(c) == Lower(c) \/ Upper(c) \/ c \in {201, 233}      \* E acute, e acute
DigitU(c) == Digit(c) \/ c = 178                            \* superscript two
NumericU(c) == DigitU(c) \/ c = 189                         \* one half
Up(c) == IF Lower(c) \/ c = 233 THEN c - 32 ELSE c
Dn(c) == IF Upper(c) \/ c = 201 THEN c + 32 ELSE c
Blank(c) == c \in {9, 32}
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
Some(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
MapC(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Sub(s, i, j) == SubSeq(s, i, j)
RECURSIVE LTrim(_), Dec(_)
LTrim(s) == IF s # <<>> /\ Blank(Head(s)) THEN LTrim(Tail(s)) ELSE s
Trim(s) == Reverse(LTrim(Reverse(LTrim(s))))
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
DecI(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
PadZ(s, w) == [i \in 1..(w - Len(s)) |-> 48] \o s
(* decimal expansion of n/2^k: the fraction is (n mod 2^k) * 5^k over 10^k    *)
DecF(v) == LET a == Abs(Nu(v))
               w == a \div Pow2(Sc(v))
               f == (a % Pow2(Sc(v))) * PowI(5, Sc(v))
           IN (IF Nu(v) < 0 THEN <<45>> ELSE <<>>) \o Dec(w) \o <<46>> \o (IF Sc(v) = 0 THEN <<48>> ELSE PadZ(Dec(f), Sc(v)))
ToStr(v) == CASE K(v) = "int" -> DecI(Nu(v))
              [] K(v) = "flt" -> DecF(v)
              [] K(v) = "bool" -> IF v[2] THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>
              [] K(v) = "str" -> v[2]
              [] OTHER -> <<>>
Val(ds) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, ds)
Signed(s) == s # <<>> /\ Head(s) \in {43, 45}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
SignOf(s) == IF s # <<>> /\ Head(s) = 45 THEN -1 ELSE 1
ParseInt(s0) == LET s == Trim(s0) b == Body(s) IN
                IF b = <<>> \/ ~All(b, Digit) \/ Len(b) > 6 THEN Undef ELSE IntV(SignOf(s) * Val(b))
ParseFlt(s0) == LET s == Trim(s0)
                    b == Body(s)
                    dots == {i \in 1..Len(b) : b[i] = 46}
                    p == IF dots = {} THEN Len(b) + 1 ELSE CHOOSE i \in dots : TRUE
                    f == Sub(b, p + 1, Len(b))
                    ds == Sub(b, 1, p - 1) \o f
                    n == Val(ds)
                IN IF ds = <<>> \/ Cardinality(dots) > 1 \/ ~All(ds, Digit) \/ Len(ds) > 6 THEN Undef
                   ELSE IF n % PowI(5, Len(f)) # 0 \/ (n = 0 /\ SignOf(s) < 0) THEN Undef
                   ELSE Low(SignOf(s) * (n \div PowI(5, Len(f))), Len(f))
Title(s) == [i \in 1..Len(s) |-> IF i > 1 /\ Letter(s[i - 1]) THEN Dn(s[i]) ELSE Up(s[i])]
Cap(s) == [i \in 1..Len(s) |-> IF i = 1 THEN Up(s[i]) ELSE Dn(s[i])]
StartsAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ Sub(s, i, i + Len(p) - 1) = p
IsPre(p, s) == Len(p) <= Len(s) /\ Sub(s, 1, Len(p)) = p
IsSuf(p, s) == Len(p) <= Len(s) /\ Sub(s, Len(s) - Len(p) + 1, Len(s)) = p
RECURSIVE Splits(_, _, _), Subst(_, _, _, _), Joined(_, _)
Splits(s, sep, acc) == IF s = <<>> THEN <<acc>>
                       ELSE IF IsPre(sep, s) THEN <<acc>> \o Splits(Sub(s, Len(sep) + 1, Len(s)), sep, <<>>)
                       ELSE Splits(Tail(s), sep, Append(acc, Head(s)))
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
(* pattern p: one character (or, if plus, a run) out of cls                   *)
Subst(s, p, new, in) == IF s = <<>> THEN <<>>
                        ELSE IF Head(s) \in ToSet(p.cls)
                        THEN (IF in /\ p.plus THEN <<>> ELSE new) \o Subst(Tail(s), p, new, TRUE)
                        ELSE <<Head(s)>> \o Subst(Tail(s), p, new, FALSE)
Finds(s, p) == \E i, j \in 1..Len(s) : /\ i <= j /\ (p.plus \/ i = j)
                                       /\ (p.head => i = 1) /\ (p.tail => j = Len(s))
                                       /\ All(Sub(s, i, j), LAMBDA c : c \in ToSet(p.cls))
Repeat(p, n) == IF n <= 0 THEN <<>> ELSE FlattenSeq([i \in 1..n |-> p])
Slice(i, n) == IF i < 0 THEN More(0, n + i) ELSE Less(i, n)
Insert(s, x, i) == LET k == Slice(i, Len(s)) IN Sub(s, 1, k) \o x \o Sub(s, k + 1, Len(s))

(* formats                                                                    *)
Word(c) == Digit(c) \/ Lower(c) \/ Upper(c) \/ c = 95
IsEmail(s) ==
    LET ats == {i \in 1..Len(s) : s[i] = 64}
        at == CHOOSE i \in ats : TRUE
        loc == Sub(s, 1, at - 1)
        dom == Sub(s, at + 1, Len(s))
        lab == Splits(dom, <<46>>, <<>>)
        alnum(c) == Digit(c) \/ Lower(c) \/ Upper(c)
    IN /\ Cardinality(ats) = 1 /\ loc # <<>> /\ Word(loc[1])
       /\ All(loc, LAMBDA c : alnum(c) \/ c \in {46, 95, 37, 43, 45})
       /\ All(dom, LAMBDA c : alnum(c) \/ c \in {46, 45})
       /\ \E i \in 2..Len(lab) : /\ Len(lab[i]) >= 2 /\ All(lab[i], LAMBDA c : Lower(c) \/ Upper(c))
                                 /\ (i > 2 \/ lab[1] # <<>>)
                                 /\ \A j \in (i + 1)..Len(lab) : lab[j] # <<>>
IsUrl(s0) ==
    LET s == MapC(s0, LAMBDA c : IF Upper(c) THEN c + 32 ELSE c)
        http == <<104, 116, 116, 112>>
        ftp == <<102, 116, 112>>
        css == <<58, 47, 47>>
        schemes == {http \o css, http \o <<115>> \o css, ftp \o css, ftp \o <<115>> \o css}
        localhost == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
        pre == {p \in schemes : IsPre(p, s)}
        rest == Sub(s, Len(CHOOSE p \in pre : TRUE) + 1, Len(s))
        ends == {i \in 1..Len(rest) : rest[i] \in {58, 47, 63}}
        e == IF ends = {} THEN Len(rest) + 1 ELSE CHOOSE i \in ends : \A j \in ends : i <= j
        host == Sub(rest, 1, e - 1)
        after == Sub(rest, e, Len(rest))
        an(c) == Digit(c) \/ Lower(c)
        anh(c) == an(c) \/ c = 45
        bare == IF host # <<>> /\ host[Len(host)] = 46 THEN Sub(host, 1, Len(host) - 1) ELSE host
        lab == Splits(bare, <<46>>, <<>>)
        domain == /\ Len(lab) >= 2 /\ Len(lab[Len(lab)]) >= 2 /\ All(lab[Len(lab)], anh)
                  /\ \A i \in 1..(Len(lab) - 1) : /\ lab[i] # <<>> /\ Len(lab[i]) <= 63 /\ All(lab[i], anh)
                                                  /\ an(lab[i][1]) /\ an(lab[i][Len(lab[i])])
        hl == Splits(host, <<46>>, <<>>)
        ip == Len(hl) = 4 /\ \A i \in 1..4 : Len(hl[i]) \in 1..3 /\ All(hl[i], Digit)
        ndig == IF Some(Tail(after), LAMBDA c : ~Digit(c))
                THEN (CHOOSE i \in 1..Len(Tail(after)) : ~Digit(Tail(after)[i]) /\ \A j \in 1..(i - 1) : Digit(Tail(after)[j])) - 1
                ELSE Len(after) - 1
        ported == after # <<>> /\ after[1] = 58
        path == IF ported THEN Sub(after, ndig + 2, Len(after)) ELSE after
    IN /\ pre # {}
       /\ domain \/ host = localhost \/ ip
       /\ ported => ndig >= 1
       /\ path = <<>> \/ path = <<47>> \/ (path[1] \in {47, 63} /\ Len(path) >= 2 /\ All(Tail(path), LAMBDA c : ~Blank(c)))
Special(c) == c \in {33, 64, 35, 36, 38, 42, 96, 126, 40, 41, 45, 95, 43, 61, 91, 93, 123, 125, 58, 59, 39, 34, 44, 60, 62, 46, 63, 92, 124, 47}
Secure(s) == Some(s, Upper) /\ Some(s, Lower) /\ Some(s, Digit) /\ Some(s, Special)

(* --------------------------------- equality -------------------------------- *)
AsNum(v) == IF K(v) = "bool" THEN IntV(IF v[2] THEN 1 ELSE 0) ELSE v
RECURSIVE PyEq(_, _)
PyEq(a, b) ==
    CASE K(a) \in {"int", "flt", "bool"} /\ K(b) \in {"int", "flt", "bool"} -> Same(AsNum(a), AsNum(b))
      [] IsList(a) /\ IsList(b) -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : PyEq(a[2][i], b[2][i])
      [] K(a) = K(b) -> a = b
      [] OTHER -> FALSE

(* text and lists as prefix and suffix: items of lists are compared as values *)
PreEq(p, w) == Len(p[2]) <= Len(w[2]) /\ (IF IsStr(p) THEN IsPre(p[2], w[2]) ELSE PyEq(p, [w EXCEPT ![2] = Sub(@, 1, Len(p[2]))]))
SufEq(p, w) == Len(p[2]) <= Len(w[2]) /\ (IF IsStr(p) THEN IsSuf(p[2], w[2]) ELSE PyEq(p, [w EXCEPT ![2] = Sub(@, Len(@) - Len(p[2]) + 1, Len(@))]))

(* ----------------------------------- marks --------------------------------- *)
Eager == {"add", "sub", "mul", "pow", "div", "mod", "map", "filter", "insertat", "prepend", "append", "len", "upperbond", "lowerbond",
          "inverse", "sqrt", "truncate", "trim", "totitle", "tocap", "tolower", "toupper", "padstart", "padend", "tolist", "tofloat",
          "toint", "tostr", "tobool", "replace", "replacer", "split", "join", "round", "ceil", "floor", "abs", "transform", "reverse",
          "randomfloat", "salt"}
LastEager(ch) == LET es == {i \in 1..Len(ch) : ch[i].m \in Eager} IN IF es = {} THEN 0 ELSE CHOOSE i \in es : \A j \in es : j <= i
RECURSIVE Accepts(_, _, _), Apply(_, _, _), Input(_, _, _), Check(_, _, _), Passes(_, _, _)
(* a: the value of the sibling field named by presentwith and presentwithout  *)
Gt(x, v) == IsNum(v) => Lt(x, v)
Passes(ch, v, a) == LET t == Input(ch, v, a) IN IF t = Undef THEN "undef" ELSE IF t # Err /\ Check(ch, t, a) THEN "yes" ELSE "no"
Accepts(m, v, a) ==
    LET x == m.a[1]
        y == m.a[2]
    IN CASE m.m = "required" -> v # None
         [] m.m = "present" -> v # None
         [] m.m = "presentwith" -> ~(v = None /\ a # None)
         [] m.m = "presentwithout" -> ~(v = None /\ a = None)
         [] m.m = "invalid" -> FALSE
         [] m.m = "oneisvalid" -> \E i \in 1..Len(m.subs) :
                 LET s == m.subs[i] IN IF s.by = "types" THEN Passes(s.chain, v, a) = "yes" ELSE Gt(s.a[1], v)
         [] m.m = "checkpw" -> K(v) = "salted" /\ v[2] = x[2]
         [] m.m = "validate" /\ m.by = "types" -> Passes(m.chain, v, a) = "yes"
         [] m.m = "neq" -> ~PyEq(v, x)
         [] v = None -> TRUE
         [] m.m \in {"min", "gte"} -> IsNum(v) => ~Lt(v, x)
         [] m.m \in {"max", "lte"} -> IsNum(v) => ~Lt(x, v)
         [] m.m = "gt" -> IsNum(v) => Lt(x, v)
         [] m.m = "lt" -> IsNum(v) => Lt(v, x)
         [] m.m = "range" -> IsNum(v) => ~Lt(v, x) /\ ~Lt(y, v)
         [] m.m = "positive" -> IsNum(v) => Nu(v) > 0
         [] m.m = "negative" -> IsNum(v) => Nu(v) < 0
         [] m.m = "nonnegative" -> IsNum(v) => Nu(v) >= 0
         [] m.m = "nonpositive" -> IsNum(v) => Nu(v) <= 0
         [] m.m = "even" -> K(v) = "int" => Nu(v) % 2 = 0
         [] m.m = "odd" -> K(v) = "int" => Nu(v) % 2 = 1
         [] m.m = "minlength" -> IsSeq(v) => Len(v[2]) >= Nu(x)
         [] m.m = "maxlength" -> IsSeq(v) => Len(v[2]) <= Nu(x)
         [] m.m = "length" -> IsSeq(v) => Nu(x) <= Len(v[2]) /\ Len(v[2]) <= Nu(m.a[Len(m.a)])
         [] m.m = "alnum" -> IsStr(v) => v[2] # <<>> /\ All(v[2], LAMBDA c : Letter(c) \/ NumericU(c))
         [] m.m = "alpha" -> IsStr(v) => v[2] # <<>> /\ All(v[2], Letter)
         [] m.m = "digit" -> IsStr(v) => v[2] # <<>> /\ All(v[2], DigitU)
         [] m.m = "numeric" -> IsStr(v) => v[2] # <<>> /\ All(v[2], NumericU)
         [] m.m = "hexcolor" -> IsStr(v) => Len(v[2]) = 6 /\ All(v[2], Hex)
         [] m.m = "email" -> IsStr(v) => IsEmail(v[2])
         [] m.m = "url" -> IsStr(v) => IsUrl(v[2])
         [] m.m = "securepw" -> IsStr(v) => Secure(v[2])
         [] m.m = "match" -> IsStr(v) => Finds(v[2], m.pat)
         [] m.m = "eq" -> PyEq(v, x)
         [] m.m = "oneof" -> \E i \in 1..Len(x[2]) : PyEq(v, x[2][i])
         [] m.m = "hasprefix" -> (IsSeq(v) /\ K(v) = K(x)) => PreEq(x, v)
         [] m.m = "hassuffix" -> (IsSeq(v) /\ K(v) = K(x)) => SufEq(x, v)
         [] m.m = "isprefixof" -> (IsSeq(v) /\ K(v) = K(x)) => PreEq(v, x)
         [] m.m = "issuffixof" -> (IsSeq(v) /\ K(v) = K(x)) => SufEq(v, x)
         [] m.m = "str" -> IsStr(v) \/ K(v) = "salted"
         [] m.m = "int" -> K(v) = "int"
         [] m.m = "float" -> K(v) = "flt"
         [] m.m = "bool" -> K(v) = "bool"
         [] m.m = "validate" -> Gt(x, v)
         [] OTHER -> TRUE
Plainly(m, v) == IF IsNum(v) THEN Plus(v, m.a[1]) ELSE v       \* callback "plus"
Apply(m, v, a) ==
    LET x == m.a[1]
        y == m.a[2]
        n == IF IsNum(v) THEN v ELSE None
    IN CASE v[1] \in {"err", "undef"} -> v
         [] m.m = "default" -> IF v = None THEN x ELSE v
         [] m.m = "randomdigits" -> <<"rnd", "digits", Nu(x)>>
         [] m.m = "randomalnums" -> <<"rnd", "alnums", Nu(x)>>
         [] m.m = "randomalnumpuncs" -> <<"rnd", "alnumpuncs", Nu(x)>>
         [] m.m = "randomint" -> IF Nu(x) < Nu(y) THEN <<"rnd", "int", Nu(x), Nu(y)>> ELSE Err
         [] m.m = "randomfloat" -> <<"rnd", "float", x, y>>
         [] v[1] = "rnd" -> IF m.m \in {"str", "int", "float"} THEN v ELSE Undef
         [] m.m = "tobool" -> <<"bool", CASE v = None -> FALSE [] IsNum(v) -> Nu(v) # 0 [] K(v) = "bool" -> v[2] [] OTHER -> Len(v[2]) > 0>>
         [] m.m = "transform" /\ m.by = "types" -> Input(m.chain, v, a)
         [] v = None -> None
         [] K(v) = "salted" -> IF m.m \in Eager THEN Undef ELSE v
         [] m.m = "float" -> IF K(v) = "int" THEN <<"flt", Nu(v), 0>> ELSE v
         [] m.m = "add" -> IF n = None THEN v ELSE Plus(x, v)
         [] m.m = "sub" -> IF n = None THEN v ELSE Minus(v, x)
         [] m.m = "mul" -> IF n = None THEN v ELSE Times(x, v)
         [] m.m = "div" -> IF n = None THEN v ELSE Over(v, x)
         [] m.m = "mod" -> IF n = None THEN v ELSE Rem(v, x)
         [] m.m = "pow" -> IF n = None THEN v ELSE Power(x, v)
         [] m.m = "sqrt" -> IF n = None THEN v ELSE Sqrt(v)
         [] m.m = "abs" -> IF n = None THEN v ELSE [v EXCEPT ![2] = Abs(@)]
         [] m.m = "round" -> IF n = None THEN v ELSE IntV(Round(v))
         [] m.m = "ceil" -> IF n = None THEN v ELSE IntV(Ceil(v))
         [] m.m = "floor" -> IF n = None THEN v ELSE IntV(Floor(v))
         [] m.m = "upperbond" -> IF n # None /\ Lt(x, v) THEN x ELSE v
         [] m.m = "lowerbond" -> IF n # None /\ Lt(v, x) THEN x ELSE v
         [] m.m = "inverse" -> IF K(v) = "bool" THEN <<"bool", ~v[2]>> ELSE v
         [] m.m = "len" -> IF IsSeq(v) THEN IntV(Len(v[2])) ELSE v
         [] m.m = "reverse" -> IF IsSeq(v) THEN [v EXCEPT ![2] = Reverse(@)] ELSE v
         [] m.m = "truncate" -> IF IsSeq(v) THEN [v EXCEPT ![2] = Sub(@, 1, Less(Nu(x), Len(@)))] ELSE v
         [] m.m = "trim" -> IF IsStr(v) THEN Str(Trim(v[2])) ELSE v
         [] m.m = "tolower" -> IF IsStr(v) THEN Str(MapC(v[2], Dn)) ELSE v
         [] m.m = "toupper" -> IF IsStr(v) THEN Str(MapC(v[2], Up)) ELSE v
         [] m.m = "totitle" -> IF IsStr(v) THEN Str(Title(v[2])) ELSE v
         [] m.m = "tocap" -> IF IsStr(v) THEN Str(Cap(v[2])) ELSE v
         [] m.m = "padstart" -> IF IsStr(v) THEN Str(Repeat(x[2], Nu(y) - Len(v[2])) \o v[2]) ELSE v
         [] m.m = "padend" -> IF IsStr(v) THEN Str(v[2] \o Repeat(x[2], Nu(y) - Len(v[2]))) ELSE v
         [] m.m = "tolist" -> IF IsStr(v) THEN <<"list", [i \in 1..Len(v[2]) |-> Str(<<v[2][i]>>)]>>
                              ELSE IF K(v) = "tuple" THEN <<"list", v[2]>> ELSE v
         [] m.m = "toint" -> IF K(v) = "bool" THEN AsNum(v) ELSE IF IsStr(v) THEN ParseInt(v[2]) ELSE v
         [] m.m = "tofloat" -> IF K(v) = "bool" THEN <<"flt", Nu(AsNum(v)), 0>> ELSE IF IsStr(v) THEN ParseFlt(v[2]) ELSE v
         [] m.m = "tostr" -> IF K(v) \in {"int", "flt", "bool"} THEN Str(ToStr(v)) ELSE v
         [] m.m = "replace" -> IF IsStr(v) THEN Str(Joined(Splits(v[2], x[2], <<>>), y[2])) ELSE v
         [] m.m = "replacer" -> IF IsStr(v) THEN Str(Subst(v[2], m.pat, x[2], FALSE)) ELSE v
         [] m.m = "split" -> IF IsStr(v) THEN <<"list", LET p == Splits(v[2], x[2], <<>>) IN [i \in 1..Len(p) |-> Str(p[i])]>> ELSE v
         [] m.m = "join" -> IF ~IsList(v) THEN v ELSE IF ~All(v[2], IsStr) THEN Undef
                            ELSE Str(Joined([i \in 1..Len(v[2]) |-> v[2][i][2]], x[2]))
         [] m.m = "append" -> IF IsList(v) THEN [v EXCEPT ![2] = Append(@, x)] ELSE IF IsStr(v) THEN Str(v[2] \o ToStr(x)) ELSE v
         [] m.m = "prepend" -> IF IsList(v) THEN [v EXCEPT ![2] = <<x>> \o @] ELSE IF IsStr(v) THEN Str(ToStr(x) \o v[2]) ELSE v
         [] m.m = "insertat" -> IF IsList(v) THEN [v EXCEPT ![2] = Insert(@, <<x>>, Nu(y))]
                                ELSE IF IsStr(v) THEN Str(Insert(v[2], ToStr(x), Nu(y))) ELSE v
         [] m.m = "wrapintolist" -> <<"list", <<v>>>>
         [] m.m = "at" -> IF ~IsSeq(v) THEN Undef
                          ELSE LET i == IF Nu(x) < 0 THEN Len(v[2]) + Nu(x) ELSE Nu(x)
                               IN IF i < 0 \/ i >= Len(v[2]) THEN Undef ELSE IF IsList(v) THEN v[2][i + 1] ELSE Str(<<v[2][i + 1]>>)
         [] m.m = "hexcolor" -> IF IsStr(v) /\ v[2] # <<>> /\ v[2][1] = 35 THEN Str(Tail(v[2])) ELSE v
         [] m.m = "transform" -> Plainly(m, v)
         [] m.m = "map" -> IF ~IsList(v) THEN v
                           ELSE LET r == [i \in 1..Len(v[2]) |-> IF m.by = "types" THEN Input(m.chain, v[2][i], a) ELSE Plainly(m, v[2][i])]
                                IN IF \E i \in 1..Len(r) : r[i] = Undef \/ r[i][1] = "rnd" THEN Undef
                                   ELSE IF Err \in ToSet(r) THEN Err ELSE <<"list", r>>
         [] m.m = "filter" -> IF ~IsList(v) THEN v
                              ELSE LET ok == [i \in 1..Len(v[2]) |-> IF m.by = "types" THEN Passes(m.chain, v[2][i], a) ELSE IF Gt(x, v[2][i]) THEN "yes" ELSE "no"]
                                   IN IF \E i \in 1..Len(ok) : ok[i] = "undef" THEN Undef
                                      ELSE <<"list", FoldLeft(LAMBDA acc, i : IF ok[i] = "yes" THEN Append(acc, v[2][i]) ELSE acc, <<>>, [i \in 1..Len(ok) |-> i])>>
         [] m.m = "salt" -> IF IsStr(v) THEN <<"salted", v[2]>> ELSE v
         [] OTHER -> v

(* ---------------------------------- chains --------------------------------- *)
(* Up to the last eager mark every mark transforms and validates at once; the  *)
(* others transform on input and validate the stored value when asked to.     *)
Input(ch, v, a) ==
    LET L == LastEager(ch)
        go[i \in 0..Len(ch)] ==
          IF i = 0 THEN v
          ELSE LET p == go[i - 1]
                   t == IF p \in {Err, Undef} THEN p ELSE Apply(ch[i], p, a)
               IN IF t \in {Err, Undef} \/ i > L THEN t
                  ELSE IF t[1] = "rnd" THEN Undef ELSE IF Accepts(ch[i], t, a) THEN t ELSE Err
    IN go[Len(ch)]
Check(ch, v, a) == \A i \in (LastEager(ch) + 1)..Len(ch) : Accepts(ch[i], v, a)

(* what a recorded value must look like to be the specified one               *)
Fits(e, o) ==
    IF e[1] # "rnd" THEN e = o
    ELSE CASE e[2] = "digits" -> IsStr(o) /\ Len(o[2]) = e[3] /\ All(o[2], Digit)
           [] e[2] = "alnums" -> IsStr(o) /\ Len(o[2]) = e[3] /\ All(o[2], LAMBDA c : Digit(c) \/ Lower(c) \/ Upper(c))
           [] e[2] = "alnumpuncs" -> IsStr(o) /\ Len(o[2]) = e[3] /\ All(o[2], LAMBDA c : c \in 33..126)
           [] e[2] = "int" -> K(o) = "int" /\ e[3] <= Nu(o) /\ Nu(o) < e[4]
           [] e[2] = "float" -> \/ K(o) = "fltx" /\ ~Lt(<<"flt", o[3], 4>>, e[3]) /\ ~Lt(e[4], <<"flt", o[2], 4>>)
                                \/ IsNum(o) /\ ~Lt(o, e[3]) /\ ~Lt(e[4], o)
=============================================================================
