------------------------------- MODULE Trace_Obj -------------------------------
EXTENDS JObj, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, W, bad
vars == <<t, n, W, bad>>
T == Traces[t]
Init == t \in 1..Len(Traces) /\ n = 0 /\ W = Fresh(T.cfg) /\ bad = {}
Seen(e) == [i \in 1..Len(e) |-> [e[i] EXCEPT !.mod = ToSet(@)]]
Out(o) == IF o[1] = "invalid" THEN <<"invalid", ToSet(o[2])>> ELSE o
Next ==
    /\ bad = {} /\ n < Len(T.steps)
    /\ LET e == T.steps[n + 1]
           r == Step(T.cfg, W, e.op)
           faults == (IF r.out = Out(e.out) THEN {} ELSE {"outcome"}) \cup (IF View(T.cfg, r.W) = Seen(e.obs) THEN {} ELSE {"content"})
       IN /\ W' = r.W /\ bad' = faults /\ n' = n + 1 /\ t' = t
          /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, faults |-> faults, expected |-> [out |-> r.out, obs |-> View(T.cfg, r.W)]])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
