-------------------------------- MODULE QirMC --------------------------------
EXTENDS Qir, Json, IOUtils
CONSTANTS MaxCircs, MaxTexts, MaxLen, MaxDepth, Rich, MinLoad, Loads
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<qvars, hist>>
View == <<circs, texts, Len(hist)>>
Room == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Do(e) == Room /\ Apply(e) /\ hist' = Append(hist, e)
Cs == 1..Len(circs)
Rarely(k, z) == Rich => RandomElement(1..k) = 1
\* (the far end of large registers is used, too)
Within(k) == IF k > 1010 /\ RandomElement(1..3) = 1 THEN 1000..(k - 1) ELSE 0..(k - 1)
RECURSIVE Draw(_, _)
Draw(w, S) == IF w = 0 THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(w - 1, S \ {x})
Places(k, w) == IF Rich THEN {Draw(w, Within(k))} ELSE {q \in [1..w -> 0..(k - 1)]: \A i, j \in 1..w: i # j => q[i] # q[j]}
Vals(w) == IF Rich THEN {[i \in 1..w |-> RandomElement(0..9)]} ELSE {[i \in 1..w |-> i]}
Small == {"X", "RY", "CX", "Rotation", "SWAP", "Identity", "Barrier", "Measurement"}
Fit(k) == {g \in (IF Rich THEN Gates \cup {"Identity"} \cup (IF RandomElement(1..12) = 1 THEN Others ELSE {}) ELSE Small \ {"Measurement"}): NeedQ(g) <= k}
\* bits of a measurement: w different ones, any, or none
BitsFor(w, k) == IF ~Rich THEN {NoBits} \cup {b \in [1..w -> 0..(k - 1)]: TRUE}
                 ELSE IF k = 0 \/ RandomElement(1..20) = 1 THEN {NoBits}
                 ELSE IF w <= k /\ RandomElement(1..3) # 1 THEN {Draw(w, Within(k))} ELSE {[i \in 1..w |-> RandomElement(0..(k - 1))]}
Conds(k) == IF Rich /\ k > 0 /\ RandomElement(1..30) = 1 THEN {<<RandomElement(0..(k - 1))>>} ELSE {<<>>}
DoNew == Len(circs) < MaxCircs /\ \E nq \in Pick(IF Rich THEN (LET x == RandomElement(1..50) IN IF x = 50 THEN 1001..1200 ELSE IF x < 11 THEN 9..130 ELSE 0..5) ELSE {2}), nb \in Pick(IF Rich THEN (LET x == RandomElement(1..50) IN IF x = 50 THEN 1001..1200 ELSE IF x < 11 THEN 9..120 ELSE 0..4) ELSE {1, 2}):
           Do([op |-> "new", nq |-> nq, nb |-> nb])
Gate(z) == \E c \in Pick({c \in Cs: circs[c].nq > 0 /\ Len(circs[c].prog) < MaxLen}): \E g \in Pick(Fit(circs[c].nq)):
          \* mostly before measurements
          (Rich /\ (\E i \in 1..Len(circs[c].prog): circs[c].prog[i].g = "Measurement") => RandomElement(1..8) = 1) /\
          \E q \in Places(circs[c].nq, NeedQ(g)), p \in Vals(NeedP(g)), k \in Conds(circs[c].nb):
          Do([op |-> "append", c |-> c, o |-> [g |-> g, q |-> q, p |-> p, b |-> NoBits, c |-> k]])
Gate1 == Gate(1)
Gate2 == Rich /\ Gate(2)
Gate3 == Rich /\ Gate(3)
Gate4 == Rich /\ Gate(4)
DoMany == Rich /\ Rarely(12, 0) /\ \E c \in Pick({c \in Cs: circs[c].nq > 2 /\ circs[c].prog = <<>>}), m \in Pick(40..300):
          Do([op |-> "many", c |-> c, os |-> TLCEval([i \in 1..m |-> LET g == RandomElement(Gates) IN
              [g |-> g, q |-> Draw(NeedQ(g), Within(circs[c].nq)), p |-> TLCEval([j \in 1..NeedP(g) |-> RandomElement(0..9)]), b |-> NoBits, c |-> <<>>]])])
DoMeas == \E c \in Pick({c \in Cs: circs[c].nq > 0 /\ Len(circs[c].prog) < MaxLen}): \E w \in Pick(1..(IF circs[c].nq > 7 THEN 7 ELSE circs[c].nq)):
          \E q \in Places(circs[c].nq, w): \E b \in BitsFor(w, circs[c].nb):
          Do([op |-> "append", c |-> c, o |-> [g |-> "Measurement", q |-> q, p |-> <<>>, b |-> b, c |-> <<>>]])
DoExtend == Rich /\ Rarely(3, 0) /\ \E c \in Pick(Cs), nq \in Pick(0..2), nb \in Pick(0..2): circs[c].nq < 150 /\ Do([op |-> "extend", c |-> c, nq |-> nq, nb |-> nb])
DoClear == Rich /\ Rarely(6, 0) /\ \E c \in Pick(Cs): Do([op |-> "clear", c |-> c])
DoCompile == Len(texts) < MaxTexts /\ \E c \in Pick({c \in Cs: Len(circs[c].prog) >= MinLoad}), ext \in (IF Rich THEN {RandomElement(1..4) # 1} ELSE BOOLEAN):
          Do([op |-> "compile", c |-> c, ext |-> ext])
DoLoad == (Loads \/ Rarely(4, 0)) /\ \E t \in Pick(1..Len(texts)), c \in Pick(IF Rich /\ Len(circs) >= MaxCircs THEN Cs ELSE {0} \cup Cs):
          (c = 0 => Len(circs) < MaxCircs) /\ (c > 0 => Len(circs[c].prog) <= MaxLen /\ CanLoad(t)) /\
          LET x == texts[t] IN
          Do([op |-> "load", t |-> t, c |-> c, nq |-> Max2(IF c = 0 THEN 0 ELSE circs[c].nq, UsedQ(x)),
              nb |-> Max2(IF c = 0 THEN 0 ELSE circs[c].nb, UsedB(x))])
\* programs with gates and measurements in other forms: all in one block, other names
Names == {"x", "h", "id", "cx", "cnot", "rz", "rot", "ccnot", "swap", "t"}
CallOf(f) == LET g == KindOf(f) IN [f |-> f, q |-> Draw(NeedQ(g), 0..RandomElement({5, 5, 12, 140})), p |-> [i \in 1..NeedP(g) |-> RandomElement(0..9)], r |-> <<>>]
MzOf(z) == [f |-> "mz", p |-> <<>>, q |-> <<RandomElement(0..RandomElement({2, 6, 12, 140}))>>, r |-> <<RandomElement(0..RandomElement({3, 3, 110}))>>]
\* (at times measurements among the gates, or a call to something unknown)
AnyOf(mid) == LET x == RandomElement(1..100) IN IF mid /\ x < 40 THEN MzOf(0) ELSE IF x = 100 THEN [f |-> "reset", q |-> <<RandomElement(0..4)>>, p |-> <<>>, r |-> <<>>]
              ELSE CallOf(RandomElement(Names))
WriteOf(z) == LET ms == TLCEval([i \in 1..RandomElement(0..2) |-> MzOf(i)]) mid == RandomElement(1..3) = 1 IN
              [nq |-> 141, nb |-> 111, body |-> LET n == RandomElement(IF mid THEN 2..7 ELSE 0..4) IN TLCEval([i \in 1..n |-> AnyOf(mid)]), meas |-> ms, out |-> [i \in 1..Len(ms) |-> ms[i].r[1]]]
DoWrite == Rich /\ Rarely(3, 0) /\ Len(texts) < MaxTexts /\ LET t == WriteOf(0) IN Do([op |-> "write", t |-> t])
Done == ~Room /\ UNCHANGED mcvars
Next == DoNew \/ Gate1 \/ Gate2 \/ Gate3 \/ Gate4 \/ DoMany \/ DoMeas \/ DoExtend \/ DoClear \/ DoCompile \/ DoLoad \/ DoWrite \/ Done
Init == QInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
T(h) == "TEST " \o ToJson(<<h>>)
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ (Len(circs) > 0 /\ hist'[Len(hist')].op \in {"compile", "load"} => PrintT(T(hist'))))
        \/ GEN = "2" /\ (Room \/ PrintT(T(hist)))
=============================================================================
