-------------------------------- MODULE MC_User -------------------------------
EXTENDS JUser, Json
CONSTANTS Emitting
Model == JsonDeserialize("model.json")
VARIABLES c, stage, tree, path, got
vars == <<c, stage, tree, path, got>>
File == Model.cases[c].file
Env == Model.cases[c].env
Init == c \in 1..Len(Model.cases) /\ stage = "file" /\ tree = Null /\ path = <<>> /\ got = Null
Read == stage = "file" /\ stage' = (IF Missing(File, Env) THEN "undefined" ELSE "read") /\ tree' = (IF Missing(File, Env) THEN Null ELSE Load(File, Env)) /\ UNCHANGED <<c, path, got>>
Ask == stage \in {"read", "got"} /\ stage' = "got" /\ UNCHANGED <<c, tree>>
       /\ (\E k \in ToSet(Model.cases[c].keys) : Len(path) < Model.depth /\ path' = Append(path, k) /\ got' = Get(tree, path'))
Next == Read \/ Ask
Spec == Init /\ [][Next]_vars
(* ------------------------------ the promises ------------------------------- *)
SnakePath(p) == [i \in 1..Len(p) |-> Snake(p[i])]
Snakes == \A p \in Paths(File) : \A i \in 1..Len(p) : LET s == Snake(p[i]) IN Snake(s) = s /\ ToSet(s) \cap Uppers = {}
Found == stage = "read" => \A p \in Paths(File) : Get(tree, SnakePath(p)) = Load(Get(File, p), Env)
Nothing == stage = "got" => (got # Null => \E p \in Paths(File) : SnakePath(p) = path)
Composed == stage = "got" => \A i \in 0..Len(path) : Get(Get(tree, SubSeq(path, 1, i)), SubSeq(path, i + 1, Len(path))) = got
Resolved == stage = "read" => \A p \in Paths(tree) : LET v == Get(tree, p) IN v[1] = "text" /\ IsEnv(v[2]) => \E i \in 1..Len(Env) : Env[i][2] = v[2]
Emit == Emitting => PrintT(<<"@@", ToJson([c |-> c, s |-> stage', p |-> path', v |-> got'])>>)
=============================================================================
