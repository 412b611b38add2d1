------------------------------ MODULE ParamsMC ------------------------------
EXTENDS Params, Json, TLC, IOUtils
CONSTANTS MaxRegs, MaxDepth, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<vars, regs, circs, active, res, val, hist>>
View == <<vars, regs, circs, active, Len(hist)>>
More == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
R == 1..Len(regs)
C == 1..Len(circs)
Cmds ==
    (IF Len(regs) < MaxRegs THEN {[op |-> "new_reg"]}
        \cup (IF active = 0 THEN {[op |-> "new_circ"]} ELSE {})
        \cup {[op |-> "copy", r |-> r] : r \in {r \in R: ~regs[r].frozen}} ELSE {})
    \cup {[op |-> "index", r |-> r, i |-> i] : r \in R, i \in (IF Rich THEN -4..7 ELSE {-1, 0, 1, 2})}
    \cup {[op |-> "add", r |-> r, name |-> n] : r \in R, n \in (IF Rich THEN -2..3 ELSE {-1, 1})}
    \cup {[op |-> "freeze", r |-> r] : r \in R}
    \cup {[op |-> o, c |-> c] : o \in {"enter", "lock", "unlock", "reset"}, c \in C}
    \cup (IF active # 0 THEN {[op |-> "exit"]} ELSE {})
Step == More /\ \E e \in Pick(Cmds): Apply(e) /\ hist' = Append(hist, e)
Done == ~More /\ UNCHANGED mcvars
Next == Step \/ Done
Init == ParInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))
\* what a context leaves behind is frozen and locked
ExitFreezes == [][(active # 0 /\ active' = 0) => circs'[active].locked /\ regs'[circs[active].reg].frozen]_mcvars
=============================================================================
