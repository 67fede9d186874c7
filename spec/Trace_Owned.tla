---------------------------- MODULE Trace_Owned ----------------------------
(* Recorded executions of the real objects, checked against JOwned.         *)
EXTENDS JOwned, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, k, st, bad
vars == <<t, k, st, bad>>
Init == /\ t \in 1..Len(Traces) /\ k = 0 /\ bad = {}
        /\ st = InitSt(Traces[t].new, Traces[t].rst, Traces[t].f)
Next ==
    /\ bad = {} /\ k < Len(Traces[t].steps)
    /\ LET e == Traces[t].steps[k + 1]
           app == Applicable(st, e.op)
           r == IF app THEN Step(st, e.op) ELSE [st |-> st, out |-> <<"exc", "inapplicable">>]
           faults == (IF r.out = e.out THEN {} ELSE {"result"}) \cup ObsFaults(r.st, e.obs)
       IN /\ st' = r.st /\ bad' = faults /\ k' = k + 1 /\ t' = t
          /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> k + 1, faults |-> faults,
                                     expected |-> [out |-> r.out, st |-> r.st]])>>))
Spec == Init /\ [][Next]_vars
Tracking == InvTracking(st)
ResetOk == InvReset(st)
=============================================================================
