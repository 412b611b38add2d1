-------------------------------- MODULE OpsMC --------------------------------
EXTENDS Ops, Json, IOUtils
CONSTANTS MaxOps, MaxDepth, Rich, NQ, NB, Small
GEN == IOEnv.GEN
VARIABLES hist, bits0
mcvars == <<ovars, hist, bits0>>
View == <<kinds, ops, bits, Len(hist)>>
Room == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Do(e) == Room /\ Apply(e) /\ hist' = Append(hist, e) /\ UNCHANGED bits0
Gs == IF Rich THEN 1..Len(kinds) ELSE Small \cup (25..Len(kinds))
Distinct(w) == {q \in [1..w -> 1..NQ]: \A i, j \in 1..w: i # j => q[i] # q[j]}
\* random sequences of w different qubits
RECURSIVE Draw(_, _)
Draw(w, S) == IF w = 0 THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(w - 1, S \ {x})
Seqs(w) == IF Rich THEN {Draw(w, 1..NQ)} ELSE IF w = 1 THEN {<<1>>, <<2>>} ELSE IF w = 2 THEN {<<1, 2>>, <<2, 1>>} ELSE {[i \in 1..w |-> i]}
Near(w) == IF w = 0 THEN 1..3 ELSE {x \in {w - 1, w, w + 1}: x >= 1 /\ x <= NQ}
\* mostly the right number, sometimes others, sometimes none
Qs(w) == UNION {Seqs(x): x \in IF Rich THEN (IF w > 0 /\ RandomElement(1..4) # 1 THEN {w} ELSE Pick(Near(w))) ELSE Near(w)}
OrNone(S, k) == IF Rich THEN (IF RandomElement(1..4) <= k THEN {None} ELSE S) ELSE S \cup {None}
Ps(g) == LET w == kinds[g].np IN
         IF Rich THEN (IF RandomElement(1..12) = 1 /\ w > 0 THEN {[i \in 1..(w - 1) |-> 1]} ELSE {[i \in 1..w |-> RandomElement(0..5) + 100 * RandomElement({0, 0, 0, 1})]})
         ELSE {[i \in 1..w |-> 1], [i \in 1..w |-> 2]}
Nt(g) == kinds[g].n - kinds[g].nc
Forms(g) ==
    IF ~Controlled(g) THEN {[q |-> q, ctl |-> None, tgt |-> None]: q \in OrNone(Qs(kinds[g].n), 1)}
    ELSE IF Rich /\ RandomElement(1..2) = 1 THEN {[q |-> q, ctl |-> None, tgt |-> None]: q \in Qs(kinds[g].n)}
    ELSE IF Rich THEN
        LET all == Draw(NQ, 1..NQ) k == RandomElement(Near(kinds[g].nc)) m == RandomElement(Near(Nt(g)))
            kk == IF RandomElement(1..4) = 1 THEN k ELSE kinds[g].nc mm == IF RandomElement(1..4) = 1 THEN m ELSE Nt(g) IN
        {[q |-> None, ctl |-> IF RandomElement(1..6) = 1 THEN None ELSE Front(all, kk),
                      tgt |-> IF RandomElement(1..6) = 1 THEN None ELSE SubSeq(all, kk + 1, IF kk + mm > NQ THEN NQ ELSE kk + mm)]}
    ELSE {[q |-> q, ctl |-> None, tgt |-> None]: q \in Qs(kinds[g].n)} \cup
         {[q |-> None, ctl |-> a, tgt |-> b]: a \in {None, <<1>>, <<1, 3>>}, b \in {None, <<2>>, <<2, 4>>}}
DoMake == Len(ops) < MaxOps /\ \E g \in Pick(Gs): \E f \in Forms(g), p \in Ps(g), x \in Pick(BOOLEAN):
            (x => \A i \in 1..Len(p): p[i] < 100) /\ Do([op |-> "make", g |-> g, q |-> f.q, ctl |-> f.ctl, tgt |-> f.tgt, p |-> p, ctx |-> x])
DoAgain == Len(ops) < MaxOps /\ \E o \in Pick(1..Len(ops)): \E g \in {ops[o].g}: \E f \in Forms(g) \cup (IF Rich THEN {} ELSE {[q |-> None, ctl |-> None, tgt |-> None]}), x \in Pick(BOOLEAN):
            ~(Controlled(g) /\ Given(f.q)) /\
            (x => \A i \in 1..Len(ops[o].p): ops[o].p[i] < 100) /\ Do([op |-> "again", o |-> o, q |-> f.q, ctl |-> f.ctl, tgt |-> f.tgt, ctx |-> x])
DoSetQ == \E o \in Pick(1..Len(ops)): \E q \in Qs(kinds[ops[o].g].n): Do([op |-> "setq", o |-> o, q |-> q])
DoSetParam == \E o \in Pick({o \in 1..Len(ops): ops[o].p # <<>>}): \E j \in Pick(1..Len(ops[o].p)), v \in Pick(IF Rich THEN 0..5 ELSE {2}):
            Do([op |-> "setparam", o |-> o, j |-> j, v |-> v])
DoCond == Rich /\ \E o \in Pick(1..Len(ops)), w \in Pick(0..3): Do([op |-> "cond", o |-> o, bs |-> [i \in 1..w |-> RandomElement(1..NB)]])
DoInto == \E o \in Pick({o \in 1..Len(ops): ops[o].g = MEASUREMENT}): \E w \in Pick(IF Rich THEN 1..4 ELSE 1..2):
            Do([op |-> "into", o |-> o, bs |-> [i \in 1..w |-> (i % NB) + 1]])
DoSetBit == Rich /\ \E i \in Pick(1..NB), v \in Pick(0..2): Do([op |-> "setbit", i |-> i, v |-> v])
DoDefine == Len(kinds) < 24 + (IF Rich THEN 5 ELSE 1) /\
            \E nc \in Pick(IF Rich THEN 0..3 ELSE {2}), nt \in Pick(IF Rich THEN 1..2 ELSE {1}), np \in Pick(IF Rich THEN 0..3 ELSE {0}):
            \E base \in Pick({0} \cup {g \in 15..Len(kinds): nc > 0 /\ kinds[g].nc > 0 /\ kinds[g].np = np}):
            Do([op |-> "define", n |-> nc + nt, nc |-> nc, np |-> np, base |-> base])
DoAsk == \E g \in Pick(Gs): Do([op |-> "ask", g |-> g])
Done == ~Room /\ UNCHANGED mcvars
Next == DoMake \/ DoAgain \/ DoSetQ \/ DoSetParam \/ DoCond \/ DoInto \/ DoSetBit \/ DoDefine \/ DoAsk \/ Done
Init == \E z \in (IF Rich THEN 1..200 ELSE {1}): bits0 = [i \in 1..NB |-> IF Rich THEN RandomElement(0..(2 + 0 * z)) ELSE 2] /\ OpsInit(bits0) /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
T(h) == "TEST " \o ToJson(<<[bits |-> bits0, ev |-> h]>>)
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT(T(hist')))
        \/ GEN = "2" /\ (Room \/ PrintT(T(hist)))
=============================================================================
