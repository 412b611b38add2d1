------------------------------- MODULE QasmMC -------------------------------
EXTENDS Qasm, Json, IOUtils
CONSTANTS MaxCircs, MaxLen, MaxDepth, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<qvars, hist>>
View == <<circs, Len(hist)>>
Room == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Do(e) == Room /\ Apply(e) /\ hist' = Append(hist, e)
Cs == 1..Len(circs)
Rarely(k, z) == Rich => RandomElement(1..k) = 1
RECURSIVE Draw(_, _)
Draw(w, S) == IF w = 0 THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(w - 1, S \ {x})
Places(k, w) == IF Rich THEN {Draw(w, 0..(k - 1))} ELSE {q \in [1..w -> 0..(k - 1)]: \A i, j \in 1..w: i # j => q[i] # q[j]}
Vals(w) == IF Rich THEN {[i \in 1..w |-> RandomElement(0..9)]} ELSE {[i \in 1..w |-> i]}
NQ(c) == Size(circs[c].qregs)
NB(c) == Size(circs[c].cregs)
Fit(k) == {g \in (IF Rich THEN (IF RandomElement(1..2) = 1 THEN Kinds ELSE {"Rotation", "SWAP", "CSWAP", "Two", "CX", "CCX", "Mine"}) \cup (IF RandomElement(1..40) = 1 THEN {"Barrier", "CCZ"} ELSE {})
                  ELSE {"X", "Rotation", "SWAP", "CX", "Barrier"}): NeedQ(g) <= k}
Conds(k) == IF Rich /\ k > 0 /\ RandomElement(1..60) = 1 THEN {<<RandomElement(0..(k - 1))>>} ELSE {<<>>}
\* sizes of registers; the real ones have labels, which the recorded events tell
R(l, n) == [l |-> l, n |-> n]
\* (at times with two or three digits)
Width(i) == LET x == RandomElement(1..12) IN IF x = 1 THEN RandomElement({9, 10, 11, 12, 20}) ELSE IF x = 2 /\ i = 1 THEN RandomElement({13, 101}) ELSE RandomElement(0..3)
Count(kind) == IF RandomElement(1..15) = 1 THEN RandomElement(10..12) ELSE RandomElement(0..4)
SomeRegs(kind) == IF Rich THEN {LET n == Count(kind) IN TLCEval([i \in 1..n |-> R(kind \o ToString(i), Width(i))])}
                  ELSE IF kind = "l" THEN {<<R("a", 2)>>, <<R("a", 1), R("b", 1)>>} ELSE {<<>>, <<R("a", 1)>>}
DoNew == Len(circs) < MaxCircs /\ \E q \in SomeRegs("l"), b \in SomeRegs("m"):
           Do([op |-> "new", par |-> (Rich /\ RandomElement(1..15) = 1), qregs |-> q, cregs |-> b])
Gate(z) == \E c \in Pick({c \in Cs: NQ(c) > 0 /\ Len(circs[c].prog) < MaxLen}): \E g \in Pick(Fit(NQ(c))):
          \E q \in Places(NQ(c), NeedQ(g)), p \in Vals(NeedP(g)), k \in Conds(NB(c)):
          Do([op |-> "append", c |-> c, o |-> [g |-> g, q |-> q, p |-> p, b |-> NoBits, c |-> k]])
Gate1 == Gate(1)
Gate2 == Rich /\ Gate(2)
Gate3 == Rich /\ Gate(3)
DoMany == Rich /\ Rarely(20, 0) /\ \E c \in Pick({c \in Cs: NQ(c) > 2 /\ circs[c].prog = <<>>}), m \in Pick(40..300):
          Do([op |-> "many", c |-> c, os |-> TLCEval([i \in 1..m |-> LET g == RandomElement({g \in Kinds: NeedQ(g) <= 3}) IN
              [g |-> g, q |-> Draw(NeedQ(g), 0..(NQ(c) - 1)), p |-> TLCEval([j \in 1..NeedP(g) |-> RandomElement(0..9)]), b |-> NoBits, c |-> <<>>]])])
DoMeas == Rarely(20, 0) /\ \E c \in Pick({c \in Cs: NQ(c) > 0 /\ Len(circs[c].prog) < MaxLen}): \E q \in Places(NQ(c), 1):
          Do([op |-> "append", c |-> c, o |-> [g |-> "Measurement", q |-> q, p |-> <<>>, b |-> NoBits, c |-> <<>>]])
DoExtend == Rich /\ Rarely(3, 0) /\ \E c \in Pick(Cs): \E q \in SomeRegs("n"), b \in SomeRegs("o"): NQ(c) < 30 /\
          Do([op |-> "extend", c |-> c, nq |-> Size(q), nb |-> Size(b), qregs |-> circs[c].qregs \o [i \in 1..Len(q) |-> R(ToString(Len(hist)) \o q[i].l, q[i].n)],
              cregs |-> circs[c].cregs \o [i \in 1..Len(b) |-> R(ToString(Len(hist)) \o b[i].l, b[i].n)]])
DoClear == Rich /\ Rarely(8, 0) /\ \E c \in Pick(Cs): Do([op |-> "clear", c |-> c])
\* (an operation that cannot be written is likely to go)
DoDrop == Rich /\ \E c \in Pick({c \in Cs: circs[c].prog # <<>>}): LET bad == {i \in 1..Len(circs[c].prog): ~Writable(circs[c].prog[i])} IN
          \E k \in Pick(IF bad # {} THEN bad ELSE 1..Len(circs[c].prog)): (bad # {} \/ RandomElement(1..6) = 1) /\ Do([op |-> "drop", c |-> c, k |-> k])
DoWrite == \E c \in Pick(Cs), labels \in Pick(BOOLEAN), defs \in Pick(BOOLEAN):
          Do([op |-> "write", c |-> c, labels |-> labels, defs |-> defs, version |-> IF Rich /\ RandomElement(1..30) = 1 THEN RandomElement({"3.0", "2", "1.0"}) ELSE "2.0"])
DoWrite2 == Rich /\ DoWrite
DoSingle == Rarely(2, 0) /\ \E c \in Pick({c \in Cs: circs[c].prog # <<>>}): \E k \in Pick(1..Len(circs[c].prog)): Do([op |-> "single", c |-> c, k |-> k])
DoBare == Rarely(3, 0) /\ \E g \in Pick(Fit(3)): \E p \in Vals(NeedP(g)): Do([op |-> "bare", o |-> [g |-> g, q |-> <<>>, p |-> p, b |-> NoBits, c |-> <<>>]])
Done == ~Room /\ UNCHANGED mcvars
Next == DoNew \/ Gate1 \/ Gate2 \/ Gate3 \/ DoMany \/ DoMeas \/ DoExtend \/ DoClear \/ DoDrop \/ DoWrite \/ DoWrite2 \/ DoSingle \/ DoBare \/ Done
Init == QInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
T(h) == "TEST " \o ToJson(<<h>>)
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ (hist'[Len(hist')].op \in {"write", "single", "bare"} => PrintT(T(hist'))))
        \/ GEN = "2" /\ (Room \/ PrintT(T(hist)))
=============================================================================
