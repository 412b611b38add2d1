------------------------------- MODULE SimMC --------------------------------
(* Builds every program within the constants (or random ones) and runs it.  Every complete program is *)
(* printed as a test when it starts.                                                                   *)
EXTENDS Sim, FiniteSets, Json, IOUtils

CONSTANTS MinQubits, MaxQubits, NumBits, MaxLen, Kinds, Angles, Conds, Rich, MinLen, Preset
GEN == IOEnv.GEN

Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Places(k, w) == {q \in [1..w -> 0..(k - 1)]: \A i, j \in 1..w: i # j => q[i] # q[j]}
RECURSIVE DenP(_), DenAll(_)
DenP(p) == IF p = <<>> THEN 1 ELSE Angle(Head(p)).d * DenP(Tail(p))
DenAll(ops) == IF ops = <<>> THEN 1 ELSE DenP(Head(ops).p) * DenAll(Tail(ops))
OneAngle == {[p |-> <<a>>, d |-> Angle(a).d]: a \in Angles}
\* three angles: all of them multiples of pi/2 but one
Three(a) == LET x == RandomElement(0..7) y == RandomElement(0..7) IN
            CASE RandomElement(0..2) = 0 -> <<a, x, y>> [] RandomElement(0..1) = 0 -> <<x, a, y>> [] OTHER -> <<x, y, a>>
ThreeAngles == IF Rich THEN {[p |-> Three(a), d |-> Angle(a).d]: a \in Angles}
               ELSE {[p |-> t, d |-> DenP(t)]: t \in {<<a, a, a>>: a \in Angles} \cup {<<1, 8, 3>>, <<8, 1, 0>>}}
Params(g) == LET w == NumParams(g) IN
             IF w = 0 THEN {[p |-> <<>>, d |-> 1]} ELSE IF w = 1 THEN OneAngle ELSE ThreeAngles
\* denominators stay within 32-bit integers
Fits(g) == LET m == DenAll(prog) IN {x.p: x \in {y \in Params(g): y.d * m <= 130}}
CondSets == IF Conds THEN {<<>>} \cup {<<c>>: c \in 0..(NumBits - 1)} \cup
                          {<<c, e>>: c, e \in 0..(NumBits - 1)} \cup
                          (IF Rich THEN {<<c, e, f>>: c, e, f \in 0..(NumBits - 1)} ELSE {}) ELSE {<<>>}
CondsFor(g) == IF Rich /\ RandomElement(1..2) = 1 THEN {<<>>} ELSE CondSets
Widths(g, k) == IF g \in {"Barrier", "Measurement"} THEN 1..k ELSE {NumQubits(g)} \cap (1..k)
BitSets(g, w) == IF g # "Measurement" THEN {<<>>}
                 ELSE {<<>>} \cup {q \in [1..w -> 0..(NumBits - 1)]: (Rich /\ w <= 3) \/ \A i, j \in 1..w: i # j => q[i] # q[j]}

Add == /\ pc = 0 /\ Len(prog) < MaxLen
       /\ \E g \in Pick({h \in Kinds: Widths(h, n) # {}}): \E w \in Pick(Widths(g, n)): \E q \in Pick(Places(n, w)), p \in Pick(Fits(g)),
             c \in Pick(CondsFor(g)), b \in Pick(BitSets(g, w)):
             /\ prog' = Append(prog, [g |-> g, q |-> q, p |-> p, c |-> c, b |-> b])
             /\ kept' = Append(kept, NoState)
       /\ UNCHANGED <<n, vec, bits, pc, last>>
Go == pc = 0 /\ Len(prog) >= MinLen /\ (Rich => Len(prog) >= MaxLen) /\ Start
\* once per program; not during exhaustive exploration of runs
EmitGo == (GEN # "0" /\ pc = 0 /\ pc' = 1) => PrintT("TEST " \o ToJson(<<[n |-> n, bits |-> bits, ops |-> prog]>>))
Done == Finished /\ UNCHANGED simvars
Next == Add \/ Go \/ SimStep \/ Done
BitVals == IF Preset THEN [1..NumBits -> 0..2] ELSE {[i \in 1..NumBits |-> 2]}
Init == \E k \in MinQubits..MaxQubits: \E bs \in BitVals: SimInit(k, <<>>, bs)
Spec == Init /\ [][Next]_simvars
Inv == NeverZero /\ BitsTyped /\ Complete
=============================================================================
