------------------------------ MODULE ValuesMC ------------------------------
EXTENDS Values, Json, TLC, IOUtils
CONSTANTS MaxObj, MaxDepth, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<bits, vars, res, hist>>
View == <<bits, vars, Len(hist)>>
More == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Vals == IF Rich THEN Pool ELSE {1, 4, 7}

Events ==
    (IF Len(bits) < MaxObj THEN {[op |-> "new_bit"]} ELSE {})
    \cup (IF Len(vars) < MaxObj THEN {[op |-> "new_var", n |-> n] : n \in 1..(IF Rich THEN 3 ELSE 2)} ELSE {})
    \cup {[op |-> "set_bit", b |-> b, t |-> t, force |-> f] : b \in 1..Len(bits), t \in 0..2, f \in BOOLEAN}
    \cup {[op |-> "reset_bit", b |-> b] : b \in 1..Len(bits)}
    \cup {[op |-> "label_bit", b |-> b, k |-> k] : b \in 1..Len(bits), k \in (IF Rich THEN {0, 1, 2} ELSE {1})}
    \cup {[op |-> "set_var", v |-> v, x |-> x] : v \in 1..Len(vars), x \in Vals}
    \cup {[op |-> "reset_var", v |-> v] : v \in 1..Len(vars)}

Step == More /\ \E e \in Pick(Events): Apply(e) /\ hist' = Append(hist, e)
Done == ~More /\ UNCHANGED mcvars
Next == Step \/ Done
Init == ValInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))
=============================================================================
