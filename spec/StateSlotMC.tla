----------------------------- MODULE StateSlotMC -----------------------------
EXTENDS StateSlot, Json, TLC, IOUtils
CONSTANTS MaxN, MaxDepth, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<nq, slot, res, hist>>
View == <<nq, slot, Len(hist)>>
More == Len(hist) < MaxDepth
P(S) == IF Rich THEN {RandomElement(S)} ELSE S
Vecs == {[kind |-> k, n |-> n, base |-> b, factor |-> f] :
            k \in P({"vec", "mat"}), n \in P(0..(MaxN + 1)), b \in P(IF Rich THEN 0..4 ELSE {1}),
            f \in P(IF Rich THEN 1..9 ELSE {1, 2, 4, 8})}
\* of the right size as often as not
Fitting == {[kind |-> k, n |-> nq, base |-> b, factor |-> f] :
            k \in P({"vec", "mat"}), b \in P(0..4), f \in P(1..9)}
Others == {[kind |-> "other", n |-> nq, base |-> b, factor |-> 1] : b \in P(1..(IF Rich THEN 7 ELSE 2))}
Arrays == IF ~Rich THEN Vecs \cup Others
          ELSE CASE RandomElement(1..8) \in {1, 2, 3, 4, 5, 6} -> Fitting
                 [] RandomElement(1..2) = 1 -> Vecs
                 [] OTHER -> Others
DoSet == More /\ \E a \in Arrays, f \in P(BOOLEAN), m \in P(BOOLEAN):
            Set(a, f, m) /\ hist' = Append(hist, [op |-> "set", a |-> a, force |-> f, normalize |-> m])
DoAdd == More /\ \E k \in P(1..(IF Rich THEN 2 ELSE 1)): nq + k <= MaxN /\ AddQubits(k) /\ hist' = Append(hist, [op |-> "add", k |-> k])
DoSim == More /\ nq > 0 /\ Simulate /\ hist' = Append(hist, [op |-> "simulate"])
DoReject == More /\ nq > 0 /\ Reject /\ hist' = Append(hist, [op |-> "reject"])
Done == ~More /\ UNCHANGED mcvars
Next == DoSet \/ DoAdd \/ (Rich /\ DoSet) \/ DoSim \/ DoReject \/ Done
Init == SSInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))
=============================================================================
