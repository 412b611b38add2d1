------------------------------ MODULE UnitaryMC ------------------------------
(* Histories of changing a circuit of gates and building its unitary. *)
EXTENDS SimMC
CONSTANT MaxEvents
VARIABLES hist
uvars == <<simvars, hist>>
Room == Len(hist) < MaxEvents
E(e) == hist' = Append(hist, e)
OpsNow == UNION {{[g |-> g, q |-> q, p |-> p, c |-> <<>>, b |-> <<>>] : q \in Pick(Places(n, NumQubits(g))), p \in Pick(Fits(g))}
                 : g \in Pick({h \in Kinds: Widths(h, n) # {}})}
UAppend == Room /\ Len(prog) < MaxLen /\ \E o \in OpsNow: AppendOp(o) /\ E([op |-> "append", o |-> o])
URemove == Room /\ \E i \in Pick(1..Len(prog)): RemoveAt(i) /\ E([op |-> "remove", i |-> i])
UReset == Room /\ Len(prog) > 1 /\ ResetProg /\ E([op |-> "reset"])
UReparam == Room /\ \E i \in Pick({i \in 1..Len(prog): NumParams(prog[i].g) > 0}): \E a \in Pick(IF Rich THEN 0..7 ELSE {1}):
                LET p == [j \in 1..Len(prog[i].p) |-> IF j = 1 THEN a ELSE prog[i].p[j]] IN
                Reparam(i, p) /\ E([op |-> "reparam", i |-> i, p |-> p])
UBuild == Room /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "unitary") /\ E([op |-> "unitary"]) /\ UNCHANGED simvars
\* (hundreds of operations, and the unitary of them)
Calm(k) == {g \in Kinds \cap {"X", "Y", "S", "T", "CX", "CZ", "CY"}: NumQubits(g) <= k}
RECURSIVE Draw2(_, _)
Draw2(S, w) == IF w = 0 THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw2(S \ {x}, w - 1)
UMany == Rich /\ Room /\ hist = <<>> /\ n > 0 /\ RandomElement(1..8) = 1 /\ \E m \in Pick(40..250):
         \E os \in {TLCEval([i \in 1..m |-> LET g == RandomElement(Calm(n)) IN [g |-> g, q |-> Draw2(0..(n - 1), NumQubits(g)), p |-> <<>>, c |-> <<>>, b |-> <<>>]])}:
         /\ prog' = prog \o os /\ kept' = kept \o [i \in 1..m |-> NoState] /\ UNCHANGED <<n, vec, bits, pc, last>>
         /\ hist' = hist \o [i \in 1..m |-> [op |-> "append", o |-> os[i]]] \o <<[op |-> "unitary"]>>
UDone == ~Room /\ UNCHANGED uvars
UNext == UAppend \/ (Rich /\ UAppend) \/ URemove \/ UReset \/ UReparam \/ UMany \/ UBuild \/ UDone
UInit == Init /\ hist = <<>>
USpec == UInit /\ [][UNext]_uvars
UEmit == \/ GEN = "0"
         \/ GEN = "1" /\ (Len(hist') < MaxEvents \/ hist' = hist \/ PrintT("TEST " \o ToJson(<<[n |-> n, bits |-> bits, ops |-> <<>>, ev |-> hist']>>)))
         \/ GEN = "2" /\ (Room \/ PrintT("TEST " \o ToJson(<<[n |-> n, bits |-> bits, ops |-> <<>>, ev |-> hist]>>)))
\* the columns are orthonormal: the matrix is unitary, exactly
RECURSIVE Inner(_, _, _)
Inner(x, y, i) == IF i = 0 THEN R0 ELSE RAdd(Inner(x, y, i - 1), RMul(RConj(x[i]), y[i]))
Orthonormal == LET C == Columns(n, prog) IN
    \A i, j \in 1..Pow2(n): IF i = j THEN Normalised(C[i]) ELSE Inner(C[i].v, C[j].v, Pow2(n)) = R0
=============================================================================
