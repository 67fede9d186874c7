------------------------------- MODULE MC_Enum --------------------------------
EXTENDS JEnum, Json
CONSTANTS Emitting
Model == JsonDeserialize("model.json")
VARIABLES c, e, v, stage, x, ok, js, back
vars == <<c, e, v, stage, x, ok, js, back>>
Ms == Model.marks[c]
En == Model.enums[e].entries
Init == /\ c \in 1..Len(Model.marks) /\ e \in 1..Len(Model.enums)
        /\ \E i \in 1..Len(Model.enums[e].vals) : v = Model.enums[e].vals[i]
        /\ stage = "raw" /\ x = None /\ ok = TRUE /\ js = None /\ back = None
Feed == stage = "raw" /\ stage' = "in" /\ x' = Input(En, Ms, v) /\ UNCHANGED <<c, e, v, ok, js, back>>
Poke == stage = "raw" /\ stage' = "set" /\ x' = v /\ UNCHANGED <<c, e, v, ok, js, back>>
Judge == /\ stage \in {"in", "set"} /\ x # Err
         /\ stage' = stage \o "!" /\ ok' = Check(x) /\ UNCHANGED <<c, e, v, x, js, back>>
Write == /\ stage = "in!" /\ ok /\ stage' = "out" /\ js' = Json(En, Ms, x) /\ back' = Input(En, Ms, js') /\ UNCHANGED <<c, e, v, x, ok>>
Next == Feed \/ Poke \/ Judge \/ Write
Spec == Init /\ [][Next]_vars

(* ------------------------------ the promises ------------------------------- *)
Denotes(i) == \E f \in Forms(Ms).in : i \in {Canon(En, j) : j \in By(En, f, v)}
(* accepted exactly when it denotes a member in an accepted form, and then as  *)
(* a member it denotes                                                         *)
Reads == (stage = "in" /\ K(v) \notin {"none", "m"}) =>
            /\ (x = Err) <=> (\A i \in Members(En) : ~Denotes(i))
            /\ x # Err => K(x) = "m" /\ x[2] \in Members(En) /\ Denotes(x[2])
Keeps == (stage = "in" /\ K(v) \in {"none", "m"}) => x = v
Valid == stage = "in!" => ok
(* what is written in an accepted form is accepted back, as the same member    *)
(* unless the text denotes several                                             *)
RoundTrip == (stage = "out" /\ K(x) = "m" /\ Forms(Ms).out \in Forms(Ms).in) =>
    LET several == Cardinality({Canon(En, j) : j \in UNION {By(En, f, js) : f \in Forms(Ms).in}}) > 1
    IN back # Err /\ (several \/ back = x)
(* the meaning of the marks does not depend on their order, except for the     *)
(* default form, which an enum mark adds only if no form mark precedes it      *)
Marks == stage = "raw" =>
    LET S == {Ms[i] : i \in 1..Len(Ms)}
        at == CHOOSE i \in 1..Len(Ms) : Ms[i] = "enum"
        pre == {Ms[i] : i \in 1..(at - 1)} \cap {"inputname", "inputlname", "inputvalue", "inputall"}
        asked == (IF "inputname" \in S THEN {"name"} ELSE {}) \cup (IF "inputlname" \in S THEN {"lname"} ELSE {})
                 \cup (IF "inputvalue" \in S THEN {"value"} ELSE {}) \cup (IF "inputall" \in S THEN AllForms ELSE {})
    IN Forms(Ms).in = asked \cup (IF pre = {} THEN {"name"} ELSE {})
Emit == Emitting => PrintT(<<"@@", ToJson([c |-> c, e |-> e, v |-> v, s |-> stage', x |-> x', ok |-> ok', js |-> js', back |-> back'])>>)
=============================================================================
