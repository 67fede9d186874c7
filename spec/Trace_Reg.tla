------------------------------- MODULE Trace_Reg ------------------------------
EXTENDS JReg, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, W, bad
vars == <<t, n, W, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ W = <<>> /\ bad = ""
Same(w, e) == w = Either \/ (IF w[1] = "fields" THEN e[1] = "fields" /\ ToSet(e[2]) = w[2]
                          ELSE Len(w) = Len(e) /\ w[1] = e[1] /\ (Len(w) = 2 => w[2] = e[2]))
Next ==
    /\ bad = "" /\ n < Len(Traces[t].steps)
    /\ LET e == Traces[t].steps[n + 1]
           r == Step(W, e.op)
           f == IF Same(r.out, e.out) THEN "" ELSE "outcome"
       IN /\ W' = r.W /\ bad' = f /\ n' = n + 1 /\ t' = t
          /\ (f # "" => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, expected |-> r.out])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
