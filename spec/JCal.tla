--------------------------------- MODULE JCal ---------------------------------
(* Dates and times: how they are read, moved, compared, written and formatted. *)
(*                                                                             *)
(* Values  <<"date", y, m, d>>                                                 *)
(*         <<"dt", y, m, d, h, mi, s, us, off>>   off: minutes east, NV naive  *)
(*         <<"text", y, m, d, timed, h, mi, s, us, off>>  written ISO 8601     *)
(*         <<"junk", i>> any other text, <<"int", n>>, <<"bool", b>>, <<"none">>*)
(* Marks   [m |-> "date" | "datetime" | "tobo..." | "tonext..."]               *)
(*         [m |-> "before" | "after", p |-> point]                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"none">>
Err == <<"err">>
Undef == <<"undef">>
NV == 5000
K(v) == v[1]
IsDate(v) == K(v) = "date"
IsDt(v) == K(v) = "dt"
IsWhen(v) == IsDate(v) \/ IsDt(v)

(* --------------------------- the proleptic calendar ------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
Before(y) == LET p == y - 1 IN 365 * p + (p \div 4) - (p \div 100) + (p \div 400)   \* days before year y
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
YearDay(y, m, d) == CumDays[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
DayNo(y, m, d) == Before(y) + YearDay(y, m, d)                                       \* 1 is 1 January of year 1
YearOf(n) == LET g == (n * 100) \div 36525 IN
             CHOOSE y \in (g - 1)..(g + 3) : y >= 1 /\ Before(y) < n /\ n <= Before(y + 1)
MonthOf(y, k) == CHOOSE m \in 1..12 : YearDay(y, m, 1) <= k /\ k < YearDay(y, m, 1) + MonthLen(y, m)
FromDay(n) == LET y == YearOf(n) k == n - Before(y) m == MonthOf(y, k) IN <<y, m, k - YearDay(y, m, 1) + 1>>
LastDay == DayNo(9999, 12, 31)
RealDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..MonthLen(y, m)

(* --------------------------------- instants -------------------------------- *)
(* <<day, second of the day, microsecond>>; wall: as written, inst: on the UTC line *)
Norm(dy, s, us) == LET s2 == s + (us \div 1000000) IN <<dy + (s2 \div 86400), s2 % 86400, us % 1000000>>
Wall(v) == IF IsDate(v) THEN <<DayNo(v[2], v[3], v[4]), 0, 0>>
           ELSE <<DayNo(v[2], v[3], v[4]), 3600 * v[5] + 60 * v[6] + v[7], v[8]>>
Off(v) == IF IsDate(v) \/ v[9] = NV THEN 0 ELSE v[9]
Inst(v) == LET w == Wall(v) IN Norm(w[1], w[2] - 60 * Off(v), w[3])
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
At(w, off) == IF w[1] \notin 1..LastDay THEN Undef
              ELSE LET f == FromDay(w[1]) IN <<"dt", f[1], f[2], f[3], w[2] \div 3600, (w[2] \div 60) % 60, w[2] % 60, w[3], off>>
DateAt(w) == IF w[1] \notin 1..LastDay THEN Undef ELSE LET f == FromDay(w[1]) IN <<"date", f[1], f[2], f[3]>>
InUtc(v) == At(Inst(v), 0)

(* ---------------------------------- marks ---------------------------------- *)
Units == {"sec", "min", "hour", "day", "mon", "year"}
BoName(u) == "tobo" \o u
NextName(u) == "tonext" \o u
Moves == {BoName(u) : u \in Units} \cup {NextName(u) : u \in Units}
Bo(u, v) ==
    IF IsDate(v) THEN (CASE u = "mon" -> [v EXCEPT ![4] = 1]
                         [] u = "year" -> [v EXCEPT ![3] = 1, ![4] = 1]
                         [] OTHER -> v)
    ELSE CASE u = "sec" -> [v EXCEPT ![8] = 0]
           [] u = "min" -> [v EXCEPT ![7] = 0, ![8] = 0]
           [] u = "hour" -> [v EXCEPT ![6] = 0, ![7] = 0, ![8] = 0]
           [] u = "day" -> [v EXCEPT ![5] = 0, ![6] = 0, ![7] = 0, ![8] = 0]
           [] u = "mon" -> [v EXCEPT ![4] = 1, ![5] = 0, ![6] = 0, ![7] = 0, ![8] = 0]
           [] u = "year" -> [v EXCEPT ![3] = 1, ![4] = 1, ![5] = 0, ![6] = 0, ![7] = 0, ![8] = 0]
Span(u, v) == CASE u = "sec" -> <<0, 1, 0>> [] u = "min" -> <<0, 60, 0>> [] u = "hour" -> <<0, 3600, 0>>
                [] u = "day" -> <<1, 0, 0>>
                [] u = "mon" -> <<MonthLen(v[2], v[3]), 0, 0>>
                [] u = "year" -> <<IF Leap(v[2]) THEN 366 ELSE 365, 0, 0>>
Next1(u, v) == IF IsDate(v) THEN (IF u \in {"sec", "min", "hour"} THEN v ELSE DateAt(Add(Wall(Bo(u, v)), Span(u, v))))
               ELSE At(Add(Wall(Bo(u, v)), Span(u, v)), v[9])
Read(m, v) ==         \* what the two type marks make of an input
    IF m = "date"
    THEN CASE IsDt(v) -> <<"date", v[2], v[3], v[4]>>
           [] K(v) = "text" -> IF RealDate(v[2], v[3], v[4]) THEN <<"date", v[2], v[3], v[4]>> ELSE Err
           [] K(v) = "junk" -> Err
           [] OTHER -> v
    ELSE CASE IsDate(v) -> <<"dt", v[2], v[3], v[4], 0, 0, 0, 0, 0>>
           [] K(v) = "text" ->
                IF ~RealDate(v[2], v[3], v[4]) \/ v[6] \notin 0..23 \/ v[7] \notin 0..59 \/ v[8] \notin 0..59 THEN Err
                ELSE LET w == <<"dt", v[2], v[3], v[4], v[6], v[7], v[8], v[9], IF v[10] = NV THEN 0 ELSE v[10]>>
                         r == InUtc(w)
                     IN IF r = Undef THEN Err ELSE r
           [] K(v) = "junk" -> Err
           [] OTHER -> v
UnitOf(m) == CHOOSE u \in Units : m = BoName(u) \/ m = NextName(u)
Apply(k, v) ==
    CASE v = None -> None
      [] k.m \in {"date", "datetime"} -> Read(k.m, v)
      [] k.m \in Moves -> IF ~IsWhen(v) THEN v ELSE IF k.m = BoName(UnitOf(k.m)) THEN Bo(UnitOf(k.m), v) ELSE Next1(UnitOf(k.m), v)
      [] OTHER -> v
Accepts(k, v) ==
    CASE v = None -> TRUE
      [] k.m = "date" -> IsWhen(v)
      [] k.m = "datetime" -> IsDt(v)
      [] k.m \in {"before", "after"} -> k.p = None \/ (IF k.m = "before" THEN Earlier(Inst(v), Inst(k.p)) ELSE Earlier(Inst(k.p), Inst(v)))
      [] OTHER -> TRUE
LastMove(ch) == LET es == {i \in 1..Len(ch) : ch[i].m \in Moves} IN IF es = {} THEN 0 ELSE CHOOSE i \in es : \A j \in es : j <= i
Input(ch, v) ==
    LET L == LastMove(ch)
        go[i \in 0..Len(ch)] ==
          IF i = 0 THEN v
          ELSE LET p == go[i - 1]
                   t == IF p \in {Err, Undef} THEN p ELSE Apply(ch[i], p)
               IN IF t \in {Err, Undef} \/ i > L THEN t ELSE IF Accepts(ch[i], t) THEN t ELSE Err
    IN go[Len(ch)]
Check(ch, v) == LET L == LastMove(ch)
                    bad == {i \in (L + 1)..Len(ch) : ch[i].m \in {"date", "datetime"} /\ ~Accepts(ch[i], v)}
                IN bad = {} /\ \A i \in (L + 1)..Len(ch) : Accepts(ch[i], v)      \* the type mark stands before the comparisons

(* comparing what is no date has no meaning unless a type mark rejects it first *)
Sensible(ch, v) == \/ v = None \/ IsWhen(v)
                   \/ \A i \in (LastMove(ch) + 1)..Len(ch) : ch[i].m \in {"before", "after"} =>
                          \E j \in (LastMove(ch) + 1)..(i - 1) : ch[j].m \in {"date", "datetime"} /\ ~Accepts(ch[j], v)

(* ---------------------------------- output --------------------------------- *)
(* milliseconds on the UTC line                                                *)
Json(base, v) ==
    IF v = None THEN None
    ELSE IF base = "date" THEN <<"json", v[2], v[3], v[4], 0, 0, 0, 0>>
    ELSE LET u == InUtc(v) IN IF u = Undef THEN Undef ELSE <<"json", u[2], u[3], u[4], u[5], u[6], u[7], u[8] \div 1000>>
Format(base, v) ==         \* day of the year, all the fields of the written instant
    LET j == Json(base, v) IN
    IF j \in {None, Undef} THEN j ELSE <<"fmt", j[2], j[3], j[4], j[5], j[6], j[7], j[8], YearDay(j[2], j[3], j[4])>>
Reread(base, v) == Read(base, LET j == Json(base, v) IN <<"text", j[2], j[3], j[4], TRUE, j[5], j[6], j[7], j[8] * 1000, 0>>)

(* a new value is acceptable if at least the interval lies between             *)
Interval(old, new, gap) == old = None \/ new = None \/ ~Earlier(Inst(new), Add(Inst(old), gap))
=============================================================================
