-------------------------------- MODULE IdsMC --------------------------------
(* The implementation's choice of numbers is left to the recorded runs; here numbers are taken in order.   *)
EXTENDS Ids, Json, TLC, IOUtils
CONSTANTS MaxDepth, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<idvars, hist>>
View == <<len, batch, made, pool, objs, Len(hist)>>
More == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Lens == IF Rich THEN {0, 1, 2, 4, 33, 34, 35, 36} ELSE {1, 35, 36}
Batches == IF Rich THEN {0, 1, 2, 3, 7, 35, 36, 37, 38, 600, 5000} ELSE {1, 36, 40}
Ks == IF Rich THEN {1, 2, 5, 36, 37, 40, 630, 667, 700, 1000, 7000} ELSE {1, 36, 38}
Small == IF Rich THEN {1, 2, 5, 36} ELSE {}

Drawn(k) == LET d == Draw(made, pool, k) IN
            /\ UNCHANGED <<len, batch>>
            /\ made' = d[1] /\ pool' = d[2]
            /\ used' = 1..(Cardinality(used) + k - d[3])
            /\ IF d[3] = 0 THEN Ok ELSE Err
NewMC(kind) == /\ Drawn(1)
               /\ objs' = IF res' = "ok" THEN Append(objs, [kind |-> kind, id |-> Cardinality(used) + 1]) ELSE objs
Cmds ==
    {[op |-> "reset", l |-> l, b |-> b] : l \in Lens, b \in Batches}
    \cup {[op |-> "refresh"]}
    \cup {[op |-> "next", k |-> k] : k \in Ks}
    \cup {[op |-> "new", kind |-> x] : x \in {"q", "b"}}
    \cup {[op |-> "copy", o |-> o] : o \in 1..Len(objs)}
    \cup (IF Rich THEN {[op |-> "touch", o |-> o] : o \in 1..Len(objs)} ELSE {})
Kinds == {"reset", "refresh", "next", "next", "new"} \cup (IF objs = <<>> THEN {} ELSE {"copy", "touch"})
Choose == IF Rich THEN LET k == RandomElement(Kinds) IN Pick({c \in Cmds: c.op = k}) ELSE Cmds
Do(c) == CASE c.op = "next" -> Drawn(c.k) /\ UNCHANGED objs
           [] c.op = "new" -> NewMC(c.kind)
           [] OTHER -> Apply(c)
Step == More /\ \E c \in Choose: (c.op = "next" => Cardinality(used) + c.k < 9000) /\ Do(c) /\ hist' = Append(hist, c)
Done == ~More /\ UNCHANGED mcvars
Next == Step \/ Done
Init == IdInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))
\* numbers are never handed out twice, and none is left over when the counter reports that it ran out
RunsOutLast == [][res' = "err" => made' = Total(len') /\ pool' = 0]_mcvars
=============================================================================
