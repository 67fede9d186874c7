------------------------------ MODULE Trace_Life ------------------------------
EXTENDS JLife, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, n, W, bad
vars == <<t, n, W, bad>>
Init == t \in 1..Len(Traces) /\ n = 0 /\ W = <<>> /\ bad = {}
Shown(w) == [i \in 1..Len(w) |-> [c |-> w[i].c, new |-> w[i].new, mod |-> w[i].mod, v |-> w[i].v, s |-> w[i].s, f |-> w[i].f, m |-> w[i].m,
                                  up |-> w[i].up, downs |-> w[i].downs, sub |-> w[i].sub,
                                  pool |-> SelectSeq(w[i].pool, LAMBDA p : p[2] # <<>>)]]
Seen(e) == [i \in 1..Len(e) |-> [e[i] EXCEPT !.mod = ToSet(@)]]
(* on-save calls between two other calls: compared as a set of <<who, value>> *)
Norm(log) == FoldSeq(LAMBDA e, acc :
                 IF e[1] \notin {"ss", "wr", "upd"} THEN Append(acc, e)
                 ELSE IF acc # <<>> /\ acc[Len(acc)][1] = "ss*"
                 THEN [acc EXCEPT ![Len(acc)] = <<"ss*", @[2] \cup {e}>>]
                 ELSE Append(acc, <<"ss*", {e}>>), <<>>, log)
Next ==
    /\ bad = {} /\ n < Len(Traces[t].steps)
    /\ LET e == Traces[t].steps[n + 1]
           r == Step(Traces[t].classes, W, e.op)
           faults == (IF Norm(r.log) = Norm(e.log) /\ Len(r.log) = Len(e.log) THEN {} ELSE {"calls"}) \cup (IF r.out = e.out THEN {} ELSE {"outcome"})
                     \cup (IF Shown(r.W) = Seen(e.obs) THEN {} ELSE {"content"})
       IN /\ W' = r.W /\ bad' = faults /\ n' = n + 1 /\ t' = t
          /\ (faults # {} => PrintT(<<"@@", ToJson([t |-> t, k |-> n + 1, faults |-> faults,
                     expected |-> [log |-> r.log, out |-> r.out, obs |-> Shown(r.W)]])>>))
Spec == Init /\ [][Next]_vars
=============================================================================
