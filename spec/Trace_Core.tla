---------------------------- MODULE Trace_Core ----------------------------
(* Executions recorded from the code, each with its own classes, checked step
   by step against JCore.                                                   *)
EXTENDS JCore, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, st, bad
vars == <<t, n, st, bad>>
Init == /\ t \in 1..Len(Traces) /\ n = 0 /\ bad = {}
        /\ st = InitSt(<<>>, {}, Traces[t].nvars)
Next ==
    /\ bad = {} /\ n < Len(Traces[t].steps)
    /\ LET e == Traces[t].steps[n + 1]
           pre == [st EXCEPT !.W.S = Traces[t].schema, !.W.D = ToSet(Traces[t].dates)]
           able == Applicable(pre, e.op)
           r == IF able THEN Step(pre, e.op) ELSE [st |-> pre, out |-> <<"inapplicable">>]
           app == able /\ ~(r.out[1] = "exc" /\ r.out[2] = "unspecified")
           d == Dump(r.st)
           faults == IF ~app THEN {}
                     ELSE OutFaults(pre, e.op, r.out, e.out)
                          \cup (IF d = e.obs THEN {} ELSE {"content"})
       IN \* a step outside the specified domain ends the execution quietly
          /\ st' = [r.st EXCEPT !.W.S = <<>>, !.W.D = {}] /\ bad' = (IF app THEN faults ELSE {"end"}) /\ t' = t /\ n' = n + 1
          /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, faults |-> faults,
                                     expected |-> [out |-> r.out, obs |-> d]])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
