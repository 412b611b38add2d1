------------------------------- MODULE GatesMC -------------------------------
EXTENDS Gates, Json, IOUtils
CONSTANTS MaxObj, MaxDepth, Rich, Small
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<objs, res, hist>>
View == <<objs, Len(hist)>>
More == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
GS == IF Rich THEN PGates ELSE Small
Slots == IF Rich THEN 1..20 ELSE {1}
\* every gate has a unitary matrix; facts that pin the definitions down
ASSUME GEN # "0" \/ \A g \in PGates: Unitary(g)
ASSUME \A P \in {MX, MY, MZ}: AddUp(P) /\ FullTurn(P)
ASSUME Same(MMul(PMatrix("Hadamard"), MMul(PMatrix("RZ"), PMatrix("Hadamard"))), PMatrix("RX"))
ASSUME \A g \in {"X", "Y", "Z", "Hadamard", "CX", "CY", "CZ", "CHadamard", "SWAP", "CSWAP", "CCX"}: Hermitian(g)
ASSUME Same(MMul(PMatrix("T"), PMatrix("T")), PMatrix("S"))
\* the decompositions the library mentions, and one that is none
ASSUME Composes(<<"Hadamard", "X", "Hadamard">>, "Z") /\ Composes(<<"RZ", "RY", "RZ">>, "Rotation")
ASSUME Composes(<<"Z", "Hadamard", "X", "Hadamard", "S">>, "Phase") /\ Composes(<<"X", "Z">>, "Y")
ASSUME ~Composes(<<"Hadamard", "Z", "Hadamard">>, "Z") /\ ~Composes(<<"RY", "RZ", "RY">>, "Rotation")
\* the matrices, for the harness
RECURSIVE TermSeq(_, _)
TermSeq(p, D) == IF D = {} THEN <<>> ELSE LET x == CHOOSE x \in D: TRUE IN <<<<x, p[x]>>>> \o TermSeq(p, D \ {x})
Rows(g) == LET A == PMatrix(g) IN [i \in 1..Dim(A) |-> [j \in 1..Dim(A) |-> TermSeq(A.m[i][j], DOMAIN A.m[i][j])]]
ASSUME \A g \in PGates: PrintT("MATRIX " \o ToJson([g |-> g, k |-> PMatrix(g).k, params |-> PParams(g), qubits |-> PQubits(g), m |-> Rows(g)]))

DoCreate == More /\ Len(objs) < MaxObj /\ \E g \in Pick(GS), p \in Pick(Slots): Create(g, p) /\ hist' = Append(hist, [op |-> "create", g |-> g, p |-> p])
DoVar == More /\ Len(objs) < MaxObj /\ \E g \in Pick({g \in GS: PParams(g) > 0}): CreateVar(g) /\ hist' = Append(hist, [op |-> "create_var", g |-> g])
DoEval == More /\ Len(objs) < MaxObj /\ \E o \in Pick({o \in 1..Len(objs): PParams(objs[o].g) > 0}), p \in Pick(Slots), i \in Pick(BOOLEAN):
            Eval(o, p, i) /\ hist' = Append(hist, [op |-> "eval", o |-> o, p |-> p, inplace |-> i])
DoAgain == More /\ Len(objs) < MaxObj /\ \E o \in Pick(1..Len(objs)): Again(o) /\ hist' = Append(hist, [op |-> "again", o |-> o])
DoScribble == More /\ \E o \in Pick(1..Len(objs)), c \in Pick(BOOLEAN): Scribble(o, c) /\ hist' = Append(hist, [op |-> "scribble", o |-> o, cls |-> c])
DoAssign == More /\ Rich /\ \E o \in Pick(1..Len(objs)), c \in Pick(BOOLEAN): Assign(o) /\ hist' = Append(hist, [op |-> "assign", o |-> o, cls |-> c])
DoSetParam == More /\ \E o \in Pick({o \in 1..Len(objs): PParams(objs[o].g) > 0}), p \in Pick(Slots):
            SetParam(o, p) /\ hist' = Append(hist, [op |-> "setparam", o |-> o, p |-> p])
Done == ~More /\ UNCHANGED mcvars
Next == DoCreate \/ DoVar \/ DoEval \/ DoAgain \/ DoScribble \/ DoAssign \/ DoSetParam \/ Done
Init == GInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))
\* operations do not influence each other
Isolated == [][Cardinality({o \in 1..Len(objs): objs'[o] # objs[o]}) <= 1]_mcvars
=============================================================================
