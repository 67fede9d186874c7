------------------------------- MODULE Trace_User -----------------------------
EXTENDS JUser, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, hs, bad
vars == <<t, n, hs, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ hs = <<>> /\ bad = ""
T == Traces[t]
Shown(v) == IF v[1] \in {"map", "list"} THEN <<"conf">> ELSE v
Next ==
    /\ bad = "" /\ n < Len(T.steps)
    /\ LET e == T.steps[n + 1]
           gone == e.op = "load" /\ Missing(T.file, T.env)
           v == IF gone THEN Null ELSE IF e.op = "load" THEN Load(T.file, T.env) ELSE Get(hs[e.from], e.path)
           w == IF gone THEN <<"undefined">> ELSE Shown(v)
           f == IF w = e.out THEN "" ELSE "outcome"
       IN /\ hs' = (IF w = <<"conf">> THEN Append(hs, v) ELSE hs) /\ bad' = f /\ n' = n + 1 /\ t' = t
          /\ (f # "" => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, expected |-> w])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
