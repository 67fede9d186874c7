------------------------------ MODULE Trace_Enum -------------------------------
EXTENDS JEnum, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, x, bad
vars == <<t, n, x, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ x = None /\ bad = ""
T == Traces[t]
Next ==
    /\ bad = "" /\ n < Len(T.steps)
    /\ LET e == T.steps[n + 1]
           w == CASE e.op = "input" -> Input(T.entries, T.marks, e.v)
                  [] e.op = "assign" -> e.v
                  [] e.op = "validate" -> IF Check(x) THEN <<"ok">> ELSE Err
                  [] e.op = "json" -> Json(T.entries, T.marks, x)
           f == IF w # e.out THEN "outcome" ELSE ""
       IN /\ x' = (IF e.op \in {"input", "assign"} /\ e.out # Err THEN e.out ELSE x)
          /\ bad' = f /\ t' = t /\ n' = n + 1
          /\ (f # "" => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, fault |-> f, expected |-> w])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
