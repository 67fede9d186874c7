---------------------------- MODULE Trace_Links ----------------------------
EXTENDS Integers, Sequences, TLC, Json
Data == JsonDeserialize("traces.json")
Traces == Data.traces
TheSchema == Data.schema
INSTANCE JLinks WITH Schema <- TheSchema
VARIABLES t, n, st, bad
vars == <<t, n, st, bad>>
Init == /\ t \in 1..Len(Traces) /\ n = 0 /\ bad = {}
        /\ st = InitSt(Traces[t].obj, Traces[t].ident, Traces[t].pers)
Next ==
    /\ bad = {} /\ n < Len(Traces[t].steps)
    /\ LET e == Traces[t].steps[n + 1]
           app == Applicable(st, e.op)
           r == IF app THEN Step(st, e.op) ELSE [st |-> st, out |-> <<"exc", "inapplicable">>]
           faults == (IF r.out = e.out THEN {} ELSE {"result"}) \cup ObsFaults(st, e.op, r.st, e.obs)
       IN /\ st' = Adopt(r.st, e.obs) /\ bad' = faults /\ n' = n + 1 /\ t' = t
          /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, faults |-> faults,
                                     expected |-> [out |-> r.out, st |-> r.st]])>>))
Spec == Init /\ [][Next]_vars
Symmetric == InvSymmetric(st)
Keys == InvKeys(st)
Graphs == InvGraph(st) /\ InvIdent(st)
Pools == InvPool(st)
=============================================================================
