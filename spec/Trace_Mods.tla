------------------------------ MODULE Trace_Mods ------------------------------
EXTENDS JMods, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, x, bad
vars == <<t, n, x, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ x = None /\ bad = ""
T == Traces[t]
Next ==
    /\ bad = "" /\ n < Len(T.steps)
    /\ LET e == T.steps[n + 1]
           w == CASE e.op = "input" -> Input(T.chain, e.v, T.sib)
                  [] e.op = "assign" -> e.v
                  [] e.op = "validate" -> IF Check(T.chain, x, T.sib) THEN <<"ok">> ELSE Err
           good == w = Undef \/ Fits(w, e.out)
           f == IF ~good THEN "outcome"
                ELSE IF e.op = "validate" /\ e.now # x THEN "changed" ELSE ""
       IN /\ x' = (IF e.op = "validate" THEN x ELSE IF e.out = Err THEN x ELSE e.out)
          /\ bad' = f /\ t' = t
          /\ n' = IF w = Undef THEN Len(T.steps) ELSE n + 1
          /\ (f # "" => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, fault |-> f, expected |-> w])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
