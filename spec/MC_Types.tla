------------------------------- MODULE MC_Types -------------------------------
EXTENDS JTypes, Json
CONSTANTS Emitting
Model == JsonDeserialize("model.json")
Styles == Model.styles
VARIABLES c, v, stage, st, x, ok, js
vars == <<c, v, stage, st, x, ok, js>>
T == Model.types[c].t
M == Mean(T)
Init == /\ c \in 1..Len(Model.types) /\ v = None /\ x = None /\ ok = TRUE /\ js = None /\ stage = "spell"
        /\ st \in 1..Len(Styles)
Spelled == stage = "spell" /\ stage' = "spelled" /\ x' = Spell(T, Styles[st]) /\ UNCHANGED <<c, v, st, ok, js>>
Begin == stage = "spell" /\ st = 1 /\ stage' = "raw" /\ \E i \in 1..Len(Model.types[c].vals) : v' = Model.types[c].vals[i] /\ UNCHANGED <<c, st, x, ok, js>>
Feed == stage = "raw" /\ stage' = "in" /\ x' = Read(M, v) /\ UNCHANGED <<c, v, st, ok, js>>
Judge == stage = "in" /\ x \notin {Err, Rej} /\ stage' = "in!" /\ ok' = Ok(M, x) /\ UNCHANGED <<c, v, st, x, js>>
Out == stage = "in!" /\ ok /\ stage' = "out" /\ js' = Write(M, x) /\ UNCHANGED <<c, v, st, x, ok>>
(* saving does not touch a field without on-save marks                          *)
Save == stage = "in!" /\ ok /\ stage' = "saved" /\ UNCHANGED <<c, v, st, x, ok, js>>
Next == Spelled \/ Begin \/ Feed \/ Judge \/ Out \/ Save
Spec == Init /\ [][Next]_vars

(* ------------------------------ the promises ------------------------------- *)
(* every spelling is read by the grammar as a type of the same meaning          *)
Spellings == stage = "spelled" => Mean(Parse(x)) = M
(* what is accepted is written as JSON that reads back as an acceptable value   *)
Again == stage = "out" => LET y == Read(M, js) IN y \notin {Err, Rej} /\ Ok(M, y)
(* null passes exactly if the type is optional                                  *)
Nulls == (stage = "in!" /\ v = None) => ok = M.opt
(* a union accepts what one of its alternatives accepts after reading           *)
Alternatives == (stage = "in!" /\ T[1] = "u" /\ v # None /\ ok) => \E i \in 1..Len(M.alts) : OkAs(M.alts[i], x)
(* reading an already read value changes nothing                                *)
Stable == (stage = "in!" /\ ok) => Read(M, x) = x
Emit == Emitting => PrintT(<<"@@", ToJson([c |-> c, v |-> v', s |-> stage', st |-> st, x |-> x', ok |-> ok', js |-> js'])>>)
=============================================================================
