-------------------------------- MODULE MC_Cal --------------------------------
EXTENDS JCal, Json
CONSTANTS Emitting
Model == JsonDeserialize("model.json")
Cases == Model.cases
VARIABLES c, v, stage, x, ok, js, fm
vars == <<c, v, stage, x, ok, js, fm>>
Ch == Cases[c].chain
Base == Cases[c].base
Init == /\ c \in 1..Len(Cases)
        /\ \E i \in 1..Len(Cases[c].vals) : v = Model.vals[Cases[c].vals[i]]
        /\ stage = "raw" /\ x = None /\ ok = TRUE /\ js = None /\ fm = None
Feed == stage = "raw" /\ stage' = "in" /\ x' = Input(Ch, v) /\ UNCHANGED <<c, v, ok, js, fm>>
Poke == stage = "raw" /\ (K(v) \in {"date", "dt", "none", "int"}) = TRUE /\ stage' = "set" /\ x' = v /\ UNCHANGED <<c, v, ok, js, fm>>
Judge == /\ stage \in {"in", "set"} /\ x \notin {Err, Undef} /\ Sensible(Ch, x) = TRUE
         /\ stage' = stage \o "!" /\ ok' = Check(Ch, x) /\ UNCHANGED <<c, v, x, js, fm>>
Write == /\ stage \in {"in!", "set!"} /\ ok /\ Base # "" /\ (IF Base = "date" THEN IsWhen(x) ELSE IsDt(x)) = TRUE
         /\ stage' = stage \o "." /\ js' = Json(Base, x) /\ fm' = Format(Base, x) /\ UNCHANGED <<c, v, x, ok>>
Next == Feed \/ Poke \/ Judge \/ Write
Spec == Init /\ [][Next]_vars

(* ------------------------------ the promises ------------------------------- *)
Is == Len(Ch) = 1 /\ Ch[1].m \in Moves /\ IsWhen(v) /\ stage = "in" /\ x # Undef
Tick == <<0, 0, 1>>
Back(w) == Norm(w[1], w[2], w[3] - 1)
(* the current boundary is the latest one not after the value and the next the *)
(* earliest one after it: nothing in between is a boundary of the unit         *)
IsBoundary(u, w) == LET f == FromDay(w[1]) IN
    /\ w[3] = 0
    /\ (u \in {"min", "hour", "day", "mon", "year"} => w[2] % 60 = 0)
    /\ (u \in {"hour", "day", "mon", "year"} => w[2] % 3600 = 0)
    /\ (u \in {"day", "mon", "year"} => w[2] = 0)
    /\ (u \in {"mon", "year"} => f[3] = 1)
    /\ (u = "year" => f[2] = 1)
SameUnit(u, a, b) == LET f == FromDay(a[1]) g == FromDay(b[1]) IN
    CASE u = "year" -> f[1] = g[1]
      [] u = "mon" -> f[1] = g[1] /\ f[2] = g[2]
      [] u = "day" -> a[1] = b[1]
      [] u = "hour" -> a[1] = b[1] /\ (a[2] \div 3600) = (b[2] \div 3600)
      [] u = "min" -> a[1] = b[1] /\ (a[2] \div 60) = (b[2] \div 60)
      [] u = "sec" -> a[1] = b[1] /\ a[2] = b[2]
Boundaries == Is =>
    LET u == UnitOf(Ch[1].m)
        day == IsDate(v) /\ u \in {"sec", "min", "hour"}
    IN IF day THEN x = v
       ELSE IF Ch[1].m = BoName(u)
       THEN IsBoundary(u, Wall(x)) /\ ~Earlier(Wall(v), Wall(x)) /\ SameUnit(u, Wall(x), Wall(v)) /\ (IsDt(v) => x[9] = v[9])
       ELSE IsBoundary(u, Wall(x)) /\ Earlier(Wall(v), Wall(x)) /\ SameUnit(u, Back(Wall(x)), Wall(v)) /\ (IsDt(v) => x[9] = v[9])
Calendar == (stage = "raw" /\ IsWhen(v)) => LET n == DayNo(v[2], v[3], v[4]) IN
    /\ FromDay(n) = <<v[2], v[3], v[4]>>
    /\ (n < LastDay => LET f == FromDay(n + 1) IN IF v[4] < MonthLen(v[2], v[3]) THEN f = <<v[2], v[3], v[4] + 1>>
                                                  ELSE IF v[3] < 12 THEN f = <<v[2], v[3] + 1, 1>> ELSE f = <<v[2] + 1, 1, 1>>)
    /\ (IsDt(v) /\ InUtc(v) # Undef) => Inst(InUtc(v)) = Inst(v)
(* writing and reading again keeps the instant, cut to milliseconds            *)
RoundTrip == (stage \in {"in!.", "set!."} /\ js # Undef) => LET r == Reread(Base, x) IN
    IF Base = "date" THEN r = <<"date", x[2], x[3], x[4]>>
    ELSE LET a == Inst(r) b == Inst(x) IN a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] - (b[3] % 1000)
(* exactly one of before, after and the same instant                           *)
Sides == (stage \in {"in!", "set!"} /\ Len(Ch) >= 1 /\ Ch[Len(Ch)].m \in {"before", "after"} /\ IsWhen(x)) =>
    LET p == Ch[Len(Ch)].p IN
    p # None => Cardinality({s \in {"before", "after", "same"} : IF s = "same" THEN Inst(x) = Inst(p) ELSE Accepts([m |-> s, p |-> p], x)}) = 1
Emit == Emitting => PrintT(<<"@@", ToJson([c |-> c, v |-> v, s |-> stage', x |-> x', ok |-> ok', js |-> js', fm |-> fm'])>>)
=============================================================================
