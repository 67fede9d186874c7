------------------------------- MODULE Trace_Cal ------------------------------
EXTENDS JCal, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, x, bad
vars == <<t, n, x, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ x = None /\ bad = ""
T == Traces[t]
Within(e) == /\ IsDt(e.val) /\ e.val[9] = 0
             /\ ~Earlier(Inst(e.val), Inst(e.lo)) /\ ~Earlier(Inst(e.hi), Inst(e.val))
Next ==
    /\ bad = "" /\ n < Len(T.steps)
    /\ LET e == T.steps[n + 1]
           w == CASE e.op = "input" -> Input(T.chain, e.v)
                  [] e.op = "assign" -> e.v
                  [] e.op = "validate" -> IF ~Sensible(T.chain, x) THEN Undef ELSE IF Check(T.chain, x) THEN <<"ok">> ELSE Err
                  [] e.op = "json" -> Json(T.base, x)
                  [] e.op = "fmt" -> Format(T.base, x)
                  [] e.op = "interval" -> IF Interval(e.old, e.v, e.gap) THEN <<"ok">> ELSE Err
                  [] e.op = "stamp" -> IF Within(e) THEN <<"ok">> ELSE <<"not now">>
           f == IF w # Undef /\ w # e.out THEN "outcome" ELSE ""
       IN /\ x' = (IF e.op \in {"input", "assign"} /\ e.out # Err THEN e.out ELSE x)
          /\ bad' = f /\ t' = t
          /\ n' = IF w = Undef THEN Len(T.steps) ELSE n + 1
          /\ (f # "" => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, fault |-> f, expected |-> w])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
