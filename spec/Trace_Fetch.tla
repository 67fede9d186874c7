------------------------------ MODULE Trace_Fetch ------------------------------
EXTENDS JFetch, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, W, bad
vars == <<t, n, W, bad>>
T == Traces[t]
Init == t \in 1..Len(Traces) /\ n = 0 /\ W = Start(T.cfg) /\ bad = {}
Seen(e) == [i \in 1..Len(e) |-> [name |-> e[i].name, more |-> e[i].more, new |-> e[i].new, mod |-> ToSet(e[i].mod), prev |-> ToSet(e[i].prev),
                                 ends |-> {<<q[1], q[2], ToSet(q[3]), ToSet(q[4])>> : q \in ToSet(e[i].ends)}]]
Out(o) == IF o[1] = "written" THEN <<"written", ToSet(o[2])>> ELSE o
Next ==
    /\ bad = {} /\ n < Len(T.steps)
    /\ LET e == T.steps[n + 1]
           r == Step(T.cfg, W, e.op)
           faults == (IF r.out = Out(e.out) THEN {} ELSE {"outcome"}) \cup (IF View(T.cfg, r.W) = Seen(e.obs) THEN {} ELSE {"content"})
       IN IF ~Enabled(T.cfg, W, e.op) THEN W' = W /\ bad' = {} /\ n' = Len(T.steps) /\ t' = t
          ELSE /\ W' = r.W /\ bad' = faults /\ n' = n + 1 /\ t' = t
               /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, faults |-> faults, expected |-> [out |-> r.out, obs |-> View(T.cfg, r.W)]])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
