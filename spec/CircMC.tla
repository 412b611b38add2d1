------------------------------- MODULE CircMC -------------------------------
(* Histories of Circ.  Shape selects the calls and, for exhaustive exploration, the few operations used. *)
EXTENDS Circ, TLC, Json, IOUtils
CONSTANTS Shape, Rich, MaxDepth, MaxOps, NQ, NB
GEN == IOEnv.GEN
VARIABLES hist, setup
mcvars == <<cvars, hist, setup>>
View == <<cvars, Len(hist)>>
More == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Chance(k) == Rich /\ RandomElement(1..100) <= k
E(e) == Apply(e) /\ hist' = Append(hist, e) /\ UNCHANGED setup

\* ------------------------------------------------------------------ random parts
Distinct(S, k) == {s \in [1..k -> S]: \A i, j \in 1..k: i # j => s[i] # s[j]}
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Shuffle(S \ {x})
Some(S, k) == SubSeq(Shuffle(S), 1, IF k > Cardinality(S) THEN Cardinality(S) ELSE k)
Vals == IF Rich THEN 0..9 ELSE {0, 1}
Names == IF Rich THEN AllKinds ELSE {}
\* a circuit whose qubits an operation is likely to be created on
Home == IF active # 0 THEN active ELSE RandomElement(1..Len(circs))
MayGrow == active # 0 /\ ~circs[active].frozen /\ circs[active].par /\ NP(active) < 4
VarsOf(c) == {100 * c + i : i \in 0..(NP(c) - 1)} \cup (IF c = active /\ MayGrow THEN {100 * c + NP(c)} ELSE {})
RandPar(c) == IF Shape \in {"c18", "c19"} /\ VarsOf(c) # {} /\ RandomElement(1..3) > 1 THEN RandomElement(VarsOf(c)) ELSE RandomElement(Vals)
RandOp ==
    LET c == Home
        g == RandomElement(Names)
        bad == IF RandomElement(1..6) > 1 THEN 0 ELSE RandomElement(1..4)
        w == IF g \in AnyNumber THEN RandomElement(1..3) ELSE NeedQ(g)
        pool == IF bad = 1 THEN 1..NQ ELSE Range(circs[c].q)
        k == IF bad = 2 THEN RandomElement(1..4) ELSE w
        q == IF bad = 3 \/ (active = 0 /\ RandomElement(1..4) = 1) THEN <<>> ELSE Some(pool, k)
        np == IF bad = 4 THEN RandomElement(0..3) ELSE NeedP(g)
        b == IF g = "Measurement" /\ q # <<>> /\ Cardinality(Range(circs[c].b)) >= Len(q) /\ RandomElement(1..3) > 1
             THEN Some(Range(circs[c].b), Len(q)) ELSE <<>>
        cs == IF RandomElement(1..4) = 1 THEN Some(Range(circs[c].b), RandomElement(1..3)) ELSE <<>> IN
    [g |-> g, q |-> q, p |-> TLCEval([i \in 1..np |-> RandPar(c)]), b |-> b, c |-> cs]
\* (the initial states of random histories are drawn once per run of TLC, so there must be many)
Starts == 400
RandCirc(z) == LET par == RandomElement(1..2) = 1 /\ Shape # "c15" IN
            [par |-> par, q |-> Some(1..NQ, RandomElement(1..NQ)), b |-> Some(1..NB, RandomElement(0..NB)),
             np |-> IF par THEN RandomElement(0..2) ELSE 0]
RandSetup(z) == LET k == RandomElement(2..4) IN
             [circs |-> TLCEval([i \in 1..k |-> RandCirc(z + i)]), bits |-> TLCEval([i \in 1..NB |-> RandomElement(0..2)])]

\* ------------------------------------------------- the few operations otherwise
O(g, q, p, b, c) == [g |-> g, q |-> q, p |-> p, b |-> b, c |-> c]
FewOps ==
    CASE Shape = "c16" -> {O("X", <<1>>, <<>>, <<>>, <<>>), O("CX", <<2, 1>>, <<>>, <<>>, <<>>), O("X", <<3>>, <<>>, <<>>, <<>>),
                           O("X", <<1, 2>>, <<>>, <<>>, <<>>), O("X", <<>>, <<>>, <<>>, <<>>), O("RX", <<1>>, <<>>, <<>>, <<>>)}
      [] Shape = "c17" -> {O("X", <<1>>, <<>>, <<>>, <<>>), O("X", <<2>>, <<>>, <<>>, <<>>)}
      [] Shape = "c18" -> {O("CX", <<1, 2>>, <<>>, <<>>, <<>>), O("RX", <<2>>, <<200>>, <<>>, <<>>), O("Measurement", <<1>>, <<>>, <<1>>, <<>>), O("X", <<3>>, <<>>, <<>>, <<2>>)}
      [] Shape = "c19" -> {O("RX", <<1>>, <<200>>, <<>>, <<>>), O("Rotation", <<1>>, <<0, 200, 1>>, <<>>, <<>>), O("X", <<1>>, <<>>, <<>>, <<>>)}
Usable(o) == \A j \in 1..Len(o.p): IsVar(o.p[j]) => o.p[j] \in VarsOf(o.p[j] \div 100)
FewSetups ==
    CASE Shape = "c16" -> {[circs |-> <<[par |-> FALSE, q |-> <<1, 2>>, b |-> <<1>>, np |-> 0], [par |-> FALSE, q |-> <<2, 3>>, b |-> <<1>>, np |-> 0]>>, bits |-> <<1>>]}
      [] Shape = "c17" -> {[circs |-> <<[par |-> FALSE, q |-> <<1>>, b |-> <<>>, np |-> 0], [par |-> TRUE, q |-> <<2>>, b |-> <<>>, np |-> 1]>>, bits |-> <<>>]}
      [] Shape = "c18" -> {[circs |-> <<[par |-> FALSE, q |-> <<1, 2>>, b |-> <<1>>, np |-> 0], [par |-> TRUE, q |-> <<2, 3>>, b |-> <<2>>, np |-> 1]>>, bits |-> <<2, 2>>]}
      [] Shape = "c19" -> {[circs |-> <<[par |-> FALSE, q |-> <<1>>, b |-> <<>>, np |-> 0], [par |-> TRUE, q |-> <<1>>, b |-> <<>>, np |-> 1]>>, bits |-> <<>>]}

Calls == CASE Shape = "c16" -> {"create", "again", "extend", "remove", "reset", "refill", "enter", "leave", "freeze", "lock", "unlock", "setbit", "setqubits"}
           [] Shape = "c17" -> {"create", "enter", "leave", "freeze", "lock", "unlock", "reset", "call"}
           [] Shape = "c18" -> {"create", "call", "enter", "leave", "freeze", "unlock", "setparam", "setqubits"}
           [] Shape = "c19" -> {"create", "enter", "leave", "unlock", "setvar", "evalop", "evalcirc", "call", "extend", "setparam", "freeze"}
\* in random histories, some calls are tried more often
Times(op) == IF ~Rich THEN {1}
             ELSE CASE op = "create" -> 1..3 [] op \in {"call", "evalop", "evalcirc"} -> 1..2 [] OTHER -> {1}
On(op) == More /\ op \in Calls
\* (rare calls)
Rarely(k) == ~Rich \/ RandomElement(1..100) <= k

Indices == 1..Len(circs)
Heap == 1..Len(ops)
DoCreate == On("create") /\ Len(ops) < MaxOps /\ \E t \in Times("create"): \E o \in (IF Rich THEN {RandOp} ELSE {o \in FewOps: Usable(o)}):
              \* the variables of a circuit are found through it
              (\A j \in 1..Len(o.p): IsVar(o.p[j]) => o.p[j] \in VarsOf(o.p[j] \div 100)) /\
              E([op |-> "create", g |-> o.g, q |-> o.q, p |-> o.p, b |-> o.b, c |-> o.c])
DoAgain == On("again") /\ Len(ops) < MaxOps /\ \E i \in Pick({i \in Heap: ops[i].b = <<>> /\ ops[i].c = <<>>}):
              \E q \in (IF Rich THEN {IF RandomElement(1..2) = 1 THEN <<>> ELSE Some(IF RandomElement(1..4) = 1 THEN 1..NQ ELSE Range(circs[Home].q), Len(ops[i].q))} ELSE {<<>>, <<2>>, <<2, 1>>}):
              \* (a controlled operation may be given other controls only)
              (ops[i].g \in Ctls \cup {"CCZ", "CCRX"} => Len(q) \in {0, NeedQ(ops[i].g)}) /\
              E([op |-> "again", o |-> i, q |-> q])
\* (appending operations without qubits, and failing to append operations whose variables have values, is
\* left open)
Plainly(c, i) == ops[i].q # <<>> /\ (Takes(c, ops[i]) \/ \A j \in 1..Len(ops[i].p): IsVar(ops[i].p[j]) => ~HasVal(ops[i].p[j]))
DoExtend == On("extend") /\ \E c \in Pick(Indices): \E is \in (IF Rich /\ RandomElement(1..5) = 1 THEN {circs[d].prog: d \in {d \in Indices: Len(circs[d].prog) \in 1..4}}
                                                      ELSE IF Rich THEN {Some(Heap, RandomElement({1, 1, 1, 2, 3}))} ELSE {<<i>> : i \in Heap} \cup {<<i, j>> : i, j \in Heap}):
              Heap # {} /\ (\A k \in 1..Len(is): Plainly(c, is[k]))
              \* (failing halfway may leave a prefix behind: the rest of the history may then be cut short)
              /\ (Rich /\ Takes(c, ops[is[1]]) /\ (\E k \in 1..Len(is): ~Takes(c, ops[is[k]])) => RandomElement(1..100) <= 15) /\ E([op |-> "extend", c |-> c, os |-> is])
DoRemove == On("remove") /\ toreset = {} /\ \E c \in Pick(Indices): \E i \in Pick(IF Chance(70) /\ circs[c].prog # <<>> THEN Range(circs[c].prog) ELSE Heap):
              E([op |-> "remove", c |-> c, o |-> i])
DoReset == On("reset") /\ Rarely(8) /\ \E c \in Pick(Indices), k \in Pick(BOOLEAN):
              (Shape = "c17" => k) /\ E([op |-> "reset", c |-> c, keep |-> k])
DoRefill == On("refill") /\ Rarely(60) /\ \E c \in Pick({c \in Indices: circs[c].q = <<>>}):
              E([op |-> "refill", c |-> c, q |-> IF Rich THEN Some(1..NQ, RandomElement(1..3)) ELSE <<2>>, b |-> <<1>>])
Free == {c \in Indices: ~circs[c].locked}
DoEnter == On("enter") /\ (Rich /\ active # 0 => RandomElement(1..100) <= 8) /\ \E c \in Pick(IF Chance(85) /\ Free # {} THEN Free ELSE Indices): E([op |-> "enter", c |-> c])
DoFreeze == On("freeze") /\ Rarely(IF active = 0 THEN 6 ELSE IF Shape = "c17" THEN 60 ELSE 15) /\ (Rich => Len(stack) < 4) /\ E([op |-> "freeze"])
DoLeave == On("leave") /\ stack # <<>> /\ Rarely(IF frz THEN 60 ELSE 40) /\ \E x \in Pick(BOOLEAN): (Rich \/ Shape \in {"c16", "c17"} \/ ~x) /\ E([op |-> "leave", exc |-> x])
DoLock == On("lock") /\ Rarely(10) /\ \E c \in Pick(Indices): E([op |-> "lock", c |-> c])
DoUnlock == On("unlock") /\ \E c \in Pick(IF Rich THEN {c \in Indices: circs[c].locked} ELSE Indices): E([op |-> "unlock", c |-> c])
DoSetBit == On("setbit") /\ Rarely(30) /\ \E b \in Pick(1..Len(bits)), v \in Pick(0..1): E([op |-> "setbit", b |-> b, v |-> v])
\* (variables of the surrounding circuit may be given to a circuit that is applied)
Given(c) == TLCEval([i \in 1..NP(c) |-> IF active # 0 /\ active # c /\ NP(active) > 0 /\ RandomElement(1..4) = 1 THEN RandomElement(VarsOf(active) \ {100 * active + NP(active)}) ELSE RandomElement(Vals)])
\* applying is only left open where it fails in the middle because of qubits or variables of others
Halfway(c, q, b, p) == Applicable(c, q, b, p) /\ ~frz /\
    LET m == Mapped(c, q, b, p) IN Len(m) > 0 /\ Takes(active, m[1]) /\ \E k \in 1..Len(m): ~Takes(active, m[k])
NoQubits(c) == \E k \in 1..Len(circs[c].prog): ops[circs[c].prog[k]].q = <<>> \/ ~(Range(ops[circs[c].prog[k]].q) \subseteq Range(circs[c].q))
               \/ ~(Range(ops[circs[c].prog[k]].b) \subseteq Range(circs[c].b))
DoCall == On("call") /\ Rarely(IF active = 0 THEN 10 ELSE IF frz THEN 40 ELSE 100) /\ \E t \in Times("call"): \E c \in Pick(Indices):
    LET wrong == Chance(12)
        qs == IF Rich THEN {LET k == IF wrong THEN RandomElement(1..NQ) ELSE Len(circs[c].q)
                                pool == IF active # 0 /\ RandomElement(1..8) > 1 THEN Range(circs[active].q) ELSE 1..NQ IN
                            IF Cardinality(pool) >= k THEN Some(pool, k) ELSE Some(1..NQ, k)}
              ELSE Distinct(IF active = 0 THEN Range(circs[1].q) ELSE Range(circs[active].q), Len(circs[c].q)) \cup {<<1>>}
        bs == IF Rich THEN {IF RandomElement(1..3) = 1 THEN <<>> ELSE IF wrong THEN Some(1..NB, RandomElement(1..NB)) ELSE Some(1..NB, Len(circs[c].b))}
              ELSE IF NB = 0 \/ Len(bits) < 2 THEN {<<>>} ELSE {<<>>, <<2>>}
        ps == IF Rich THEN {IF Chance(8) THEN <<>> ELSE Given(c)} ELSE {[i \in 1..NP(c) |-> v] : v \in Vals} IN
    \E q \in qs, b \in bs, p \in ps:
       /\ ~NoQubits(c) /\ circs[c].q # <<>> /\ ~Halfway(c, q, b, p)
       /\ E([op |-> "call", c |-> c, q |-> q, b |-> b, p |-> p])
DoSetVar == On("setvar") /\ active = 0 /\ \E c \in Pick({c \in Indices: NP(c) > 0}): \E i \in Pick(0..(NP(c) - 1)), v \in Pick(Vals \cup {NoVal}):
    E([op |-> "setvar", c |-> c, i |-> i, v |-> v])
\* (what a failing evaluation in place leaves behind is left open where some variables have values)
Sharp(o, p) == Evaluable(o, p) \/ \A j \in 1..Len(o.p): IsVar(o.p[j]) => ~HasVal(o.p[j])
DoEvalOp == On("evalop") /\ Len(ops) < MaxOps /\ \E t \in Times("evalop"): \E i \in Pick({i \in Heap: ops[i].p # <<>>}): \E b \in Pick(BOOLEAN):
    \E p \in (IF Rich THEN {IF RandomElement(1..2) = 1 THEN <<>> ELSE TLCEval([j \in 1..Len(ops[i].p) |-> RandomElement(Vals)])}
              ELSE {<<>>, [j \in 1..Len(ops[i].p) |-> j - 1]}):
       Sharp(ops[i], p) /\ E([op |-> "evalop", o |-> i, p |-> p, inplace |-> b])
DoEvalCirc == On("evalcirc") /\ active = 0 /\ Len(circs) < Len(setup.circs) + 2 /\ \E t \in Times("evalcirc"):
    \E c \in Pick({c \in Indices: c <= Len(setup.circs) /\ setup.circs[c].par}): \E b \in Pick(BOOLEAN):
    LET prog == circs[c].prog
        params(k) == TLCEval([j \in 1..Len(ops[prog[k]].p) |-> IF Rich THEN RandomElement(Vals) ELSE (k + j) % 2]) IN
    \E ps \in (IF prog = <<>> THEN {<<>>} ELSE IF Rich THEN {IF RandomElement(1..2) = 1 THEN <<>> ELSE TLCEval([k \in 1..Len(prog) |-> params(k)])}
               ELSE {<<>>, [k \in 1..Len(prog) |-> params(k)]}):
       /\ (b => \A k \in 1..Len(prog): Evaluable(ops[prog[k]], Par(ps, k))) \/ (\A k \in 1..Len(prog): \A j \in 1..Len(ops[prog[k]].p): IsVar(ops[prog[k]].p[j]) => ~HasVal(ops[prog[k]].p[j]))
       /\ E([op |-> "evalcirc", c |-> c, ps |-> ps, inplace |-> b])
DoSetParam == On("setparam") /\ Rarely(50) /\ \E i \in Pick({i \in Heap: ops[i].p # <<>>}): \E j \in Pick(1..Len(ops[i].p)), v \in Pick(Vals):
    (Rich \/ j = 1) /\ E([op |-> "setparam", o |-> i, j |-> j, v |-> v])
\* (to as many qubits where any number will do)
DoSetQubits == Rich /\ On("setqubits") /\ Rarely(40) /\ \E i \in Pick(Heap): LET k == IF ops[i].q = <<>> \/ Chance(8) THEN RandomElement(1..3) ELSE Len(ops[i].q) IN
    /\ (ops[i].b # <<>> => k = Len(ops[i].q))
    /\ \E q \in {Some(IF RandomElement(1..2) = 1 THEN 1..NQ ELSE Range(circs[Home].q), k)}: q # <<>> /\ E([op |-> "setqubits", o |-> i, q |-> q])
Done == ~More /\ UNCHANGED mcvars
Next == DoCreate \/ DoAgain \/ DoExtend \/ DoRemove \/ DoReset \/ DoRefill \/ DoEnter \/ DoFreeze \/ DoLeave \/ DoLock \/ DoUnlock
        \/ DoSetBit \/ DoCall \/ DoSetVar \/ DoEvalOp \/ DoEvalCirc \/ DoSetParam \/ DoSetQubits \/ Done
Init == /\ setup \in (IF Rich THEN {RandSetup(10 * z) : z \in 1..Starts} ELSE FewSetups) /\ hist = <<>>
        /\ CInit(setup.circs, setup.bits)
Spec == Init /\ [][Next]_mcvars
T(h) == PrintT("TEST " \o ToJson(<<[setup |-> setup, ev |-> h]>>))
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ T(hist'))
        \/ GEN = "2" /\ (More \/ T(hist))
=============================================================================
