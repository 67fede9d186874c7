---------------------------- MODULE Trace_Chain ----------------------------
(* Recorded executions of objects with random modifier chains, against JChain *)
EXTENDS JChain, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, o, bad
vars == <<t, n, o, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ o = None /\ bad = {}
Shape(ob) == IF ob = None THEN <<>>
             ELSE <<ob.new, ob.mod, [x \in DOMAIN ob.f |-> ob.f[x]]>>
Seen(e) == IF e.obs = <<>> THEN <<>> ELSE <<e.obs[1], ToSet(e.obs[2]), e.obs[3]>>
Next ==
    /\ bad = {} /\ n < Len(Traces[t].steps)
    /\ LET e == Traces[t].steps[n + 1]
           r == Do(Traces[t].schema, o, e.op)
           faults == (IF r.log = e.log THEN {} ELSE {"calls"})
                     \cup (IF r.bad = ToSet(e.bad) THEN {} ELSE {"verdict"})
                     \cup (IF Shape(r.o) = Seen(e) THEN {} ELSE {"content"})
       IN /\ o' = r.o /\ bad' = faults /\ n' = n + 1 /\ t' = t
          /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, faults |-> faults,
                       expected |-> [log |-> r.log, bad |-> r.bad, o |-> Shape(r.o)]])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
