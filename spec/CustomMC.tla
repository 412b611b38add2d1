------------------------------ MODULE CustomMC ------------------------------
(* Histories of making circuits, classes and instances, reading their matrices and simulating them. *)
EXTENDS Custom, FiniteSets, Json, IOUtils
CONSTANTS MaxCirc, MaxClass, MaxInst, MaxDepth, MaxOps, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<cuvars, hist>>
View == <<circs, classes, insts, Len(hist)>>
More == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
\* denominators stay within 32-bit integers: angles with denominators become multiples of pi/2
RECURSIVE DenP(_), Den(_)
DenP(p) == IF p = <<>> THEN 1 ELSE (IF Head(p) < 100 THEN Angle(Head(p)).d ELSE 1) * DenP(Tail(p))
Den(gs) == IF gs = <<>> THEN 1 ELSE DenP(Head(gs).p) * Den(Tail(gs))
Tame(p) == [j \in 1..Len(p) |-> IF p[j] < 100 THEN p[j] % 8 ELSE p[j]]
Small(p) == [j \in 1..Len(p) |-> IF p[j] < 100 THEN 0 ELSE p[j]]
FitTo(k, p) == IF Len(p) # circs[classes[k]].np THEN p
               ELSE IF Den(Expand(k, [j \in 1..Len(p) |-> IF p[j] < 100 THEN p[j] ELSE 8])) <= 130 THEN p ELSE Tame(p)

Places(n, w) == {q \in [1..w -> 0..(n - 1)]: \A i, j \in 1..w: i # j => q[i] # q[j]}
LibKinds(n) == {g \in Simple \cup Rots \cup {"Rotation"} \cup Ctl1 \cup (Ctl2 \ {"CCX"}): NumQubits(g) <= n}
\* classes that may occur in a circuit: on one qubit
Ones == {k \in 1..Len(classes): circs[classes[k]].n = 1}
Depth1 == {k \in Ones: \A i \in 1..Len(circs[classes[k]].ops): circs[classes[k]].ops[i].k = 0}
RandParam(np) == LET r == RandomElement(1..10) IN
                 IF np > 0 /\ r <= 7 THEN 100 + RandomElement(0..(np - 1)) ELSE IF r = 8 THEN RandomElement(AllAngles) ELSE RandomElement(0..7)
RandOp(n, np) ==
    LET k == IF Depth1 # {} /\ RandomElement(1..3) = 1 THEN RandomElement(Depth1) ELSE 0
        g == IF k > 0 THEN "custom" ELSE RandomElement(LibKinds(n))
        w == IF k > 0 THEN 1 ELSE NumQubits(g)
        m == IF k > 0 THEN circs[classes[k]].np ELSE NumParams(g) IN
    [g |-> g, k |-> k, q |-> RandomElement(Places(n, w)), p |-> TLCEval([j \in 1..m |-> RandParam(np)])]
RandCirc == LET n == RandomElement({1, 1, 2, 3})
                np == RandomElement(0..3) IN
            LET ops == TLCEval([i \in 1..RandomElement(0..MaxOps) |-> RandOp(n, np)]) IN
            LET flat == ExpandAll(ops, [j \in 1..np |-> 8], Upto(n), 9)
                safe == IF Den(flat) <= 130 THEN ops ELSE TLCEval([i \in 1..Len(ops) |-> [ops[i] EXCEPT !.p = Tame(@)]]) IN
            [n |-> n, np |-> np, ops |-> safe]
L(g, q, p) == [g |-> g, k |-> 0, q |-> q, p |-> p]
Templates == {[n |-> 1, np |-> 2, ops |-> <<L("RX", <<0>>, <<101>>), L("RZ", <<0>>, <<100>>), L("RY", <<0>>, <<101>>)>>],
              [n |-> 1, np |-> 0, ops |-> <<L("Hadamard", <<0>>, <<>>), L("T", <<0>>, <<>>)>>],
              [n |-> 2, np |-> 1, ops |-> <<L("Hadamard", <<1>>, <<>>), L("CRX", <<1, 0>>, <<100>>), L("Rotation", <<1>>, <<100, 1, 100>>)>>]}
             \cup {[n |-> 2, np |-> circs[classes[k]].np, ops |-> <<[g |-> "custom", k |-> k, q |-> <<1>>, p |-> [j \in 1..circs[classes[k]].np |-> 99 + j]]>>]: k \in Ones}

E(e) == Apply(e) /\ hist' = Append(hist, e)
DoCircuit == More /\ Len(circs) < MaxCirc /\ \E c \in (IF Rich THEN {RandCirc} ELSE Templates): E([op |-> "circuit", c |-> c])
DoClass == More /\ Len(classes) < MaxClass /\ \E c \in Pick(1..Len(circs)): E([op |-> "class", c |-> c])
InstParams(np) == IF Rich THEN {TLCEval([j \in 1..np |-> IF RandomElement(1..4) = 1 THEN Free ELSE RandomElement(AllAngles)])}
                  ELSE {[j \in 1..np |-> j], [j \in 1..np |-> Free]}
DoNew == More /\ Len(insts) < MaxInst /\ \E k \in Pick(1..Len(classes)):
            LET c == circs[classes[k]]
                good == ~Rich \/ RandomElement(1..5) > 1 IN
            \E p \in UNION {InstParams(IF good THEN c.np ELSE RandomElement(0..3))}, nq \in (IF good THEN Pick({-1, c.n}) ELSE Pick(-1..4)):
               E([op |-> "new", k |-> k, p |-> FitTo(k, p), nq |-> nq])
DoBad == ~Rich /\ More /\ \E k \in 1..Len(classes): \E d \in {<<1, -1>>, <<0, 1>>}:
            LET c == circs[classes[k]] IN E([op |-> "new", k |-> k, p |-> [j \in 1..(c.np + d[1]) |-> 1], nq |-> IF d[2] = -1 THEN -1 ELSE c.n + d[2]])
DoSet == More /\ \E i \in Pick({i \in 1..Len(insts): insts[i].p # <<>>}): \E j \in Pick(1..Len(insts[i].p)):
            E([op |-> "set", i |-> i, j |-> j, a |-> IF Rich THEN RandomElement(0..7) ELSE 3])
DoEval == More /\ Len(insts) < MaxInst /\ \E i \in Pick({i \in 1..Len(insts): insts[i].p # <<>>}): \E b \in Pick(BOOLEAN):
            E([op |-> "eval", i |-> i, p |-> [j \in 1..Len(insts[i].p) |-> IF Rich THEN RandomElement(0..7) ELSE j + 1], inplace |-> b])
DoAgain == More /\ Len(insts) < MaxInst /\ \E i \in Pick(1..Len(insts)): E([op |-> "again", i |-> i])
DoRead == More /\ \E i \in Pick(1..Len(insts)): E([op |-> "read", i |-> i])
DoReadC == More /\ \E k \in Pick(1..Len(classes)): E([op |-> "read_class", k |-> k])
\* programs with single-qubit custom operations
SimOps(n) == LET ops == TLCEval([i \in 1..RandomElement(1..4) |-> IF Ones # {} /\ RandomElement(1..3) > 1
                                  THEN LET k == RandomElement(Ones) IN
                                       [g |-> "custom", k |-> k, q |-> <<RandomElement(0..(n - 1))>>,
                                        p |-> TLCEval([j \in 1..circs[classes[k]].np |-> RandomElement(AllAngles)])]
                                  ELSE LET g == RandomElement(LibKinds(n) \ Ctl2) IN
                                       L(g, RandomElement(Places(n, NumQubits(g))), TLCEval([j \in 1..NumParams(g) |-> RandomElement(0..7)]))]) IN
             IF Den(ExpandAll(ops, <<>>, Upto(n), 9)) <= 130 THEN ops
             ELSE LET t == TLCEval([i \in 1..Len(ops) |-> [ops[i] EXCEPT !.p = Tame(@)]]) IN
                  IF Den(ExpandAll(t, <<>>, Upto(n), 9)) <= 130 THEN t ELSE <<>>
DoSim == More /\ Ones # {} /\ \E n \in Pick(1..3):
            \E ops \in (IF Rich THEN {SimOps(n)} ELSE {<<L("Hadamard", <<0>>, <<>>), [g |-> "custom", k |-> k, q |-> <<n - 1>>, p |-> [j \in 1..circs[classes[k]].np |-> j]]>>: k \in Ones}):
            E([op |-> "simulate", n |-> n, ops |-> ops])
Done == ~More /\ UNCHANGED mcvars
Next == DoCircuit \/ DoClass \/ DoNew \/ DoBad \/ DoSet \/ DoEval \/ DoAgain \/ DoRead \/ DoReadC \/ DoSim \/ Done
Init == CuInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))
\* circuits and classes stay as they are; at most one instance changes or is added
Isolated == [][/\ \A i \in 1..Len(circs): circs'[i] = circs[i]
               /\ \A i \in 1..Len(classes): classes'[i] = classes[i]
               /\ Cardinality({i \in 1..Len(insts): insts'[i] # insts[i]}) <= 1]_mcvars
\* an operation made from a circuit is unitary
Sound == \A i \in 1..Len(insts): Ready(i) => \A x \in {ClassMatrix(insts[i].k, insts[i].p)}: \A j \in 1..Len(x): Normalised(x[j])
\* expanding a custom operation on one qubit, in any wrapping, is expanding its gates
Nested == \A k \in Ones: circs[classes[k]].np = 0 =>
             Columns(1, ExpandAll(<<[g |-> "custom", k |-> k, q |-> <<0>>, p |-> <<>>]>>, <<>>, <<0>>, 9)) = ClassMatrix(k, <<>>)
=============================================================================
