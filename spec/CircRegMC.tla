------------------------------ MODULE CircRegMC ------------------------------
EXTENDS CircReg, Json, IOUtils
CONSTANTS MaxCircs, MaxDepth, Rich, PoolSize, MaxItems
GEN == IOEnv.GEN
VARIABLES hist, pool
mcvars == <<circs, lab, res, val, hist, pool>>
View == <<circs, lab, Len(hist)>>
Room == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Cs == 1..Len(circs)
Ks == IF Rich THEN Kinds ELSE {"q"}
RLabels == IF Rich THEN {-1, -1, -2} \cup 1..8 \cup {DFLT, DFLT + 1, DFLT + 2} ELSE {-1, 1, DFLT + 1}
Names == IF Rich THEN 0..10 ELSE {1, 2}
Small(k) == Len(lab[k]) < MaxItems
Do(e) == Room /\ Apply(e) /\ hist' = Append(hist, e @@ [look |-> RandomElement(BOOLEAN)]) /\ UNCHANGED pool
\* in exhaustive exploration everything is looked at, or only at the end
DoX(e) == IF Rich THEN Do(e)
          ELSE Room /\ Apply(e) /\ (\E b \in BOOLEAN: hist' = Append(hist, e @@ [look |-> b])) /\ UNCHANGED pool
Guess(n) == [i \in 1..n |-> i]
New == Len(circs) < MaxCircs /\ \E n \in Pick(IF Rich THEN {-1, 0, 1, 2, 3} ELSE {-1, 1}), m \in Pick(IF Rich THEN {-1, 0, 1, 2} ELSE {-1}):
         DoX([op |-> "new", n |-> n, m |-> m, qlabs |-> Guess(n), blabs |-> Guess(m)])
DoAddReg == \E c \in Pick(Cs), k \in Pick(Ks), n \in Pick(IF Rich THEN -1..3 ELSE {0, 1}), l \in Pick(RLabels):
         Small(k) /\ DoX([op |-> "addreg", c |-> c, k |-> k, n |-> n, l |-> l, labs |-> Guess(n)])
DoAdd == \E c \in Pick(Cs), k \in Pick(Ks): \E x \in Pick(IF Rich THEN {-1, 0} \cup 1..Len(lab[k]) ELSE {0} \cup 1..PoolSize), l \in Pick(RLabels):
         Small(k) /\ DoX([op |-> "add", c |-> c, k |-> k, x |-> x, l |-> l, labs |-> Guess(1)])
DoReset == (Rich => RandomElement(1..3) = 1) /\ \E c \in Pick(Cs), keep \in Pick(BOOLEAN): DoX([op |-> "reset", c |-> c, keep |-> keep])
DoContext == \E c \in Pick(Cs): DoX([op |-> "context", c |-> c])
DoUnlock == Rich /\ \E c \in Pick({c \in Cs: circs[c].locked}): DoX([op |-> "unlock", c |-> c])
\* labels of items of a register, preferably those that occur twice in it
LabelsIn(r, k) == {lab[k][r.items[i]]: i \in 1..Len(r.items)}
Twice(r, k) == {lab[k][r.items[i]]: i \in {i \in 1..Len(r.items): \E j \in 1..(i - 1): lab[k][r.items[j]] = lab[k][r.items[i]]}}
Twices(c, k) == UNION {Twice(circs[c][k][i], k): i \in 1..Len(circs[c][k])}
Known(c, k) == IF Twices(c, k) # {} /\ RandomElement(1..3) > 1 THEN Twices(c, k)
               ELSE LET S == UNION {LabelsIn(circs[c][k][i], k): i \in 1..Len(circs[c][k])} IN IF S # {} /\ RandomElement(1..4) > 1 THEN S ELSE Names
DoGet == Rich /\ \E c \in Pick(Cs), k \in Pick(Ks): \E nm \in Pick(Known(c, k)): \E l \in Pick({-1} \cup Labels(circs[c][k]) \cup {3}), all \in Pick(BOOLEAN):
         DoX([op |-> "get", c |-> c, k |-> k, name |-> nm, l |-> l, all |-> all])
DoFind == \E c \in Pick(Cs), k \in Pick(Ks): \E x \in Pick(IF Rich THEN 1..Len(lab[k]) ELSE 1..1), b \in Pick(BOOLEAN):
         DoX([op |-> "find", c |-> c, k |-> k, x |-> x, label |-> b])
Done == ~Room /\ UNCHANGED mcvars
Next == New \/ DoAddReg \/ DoAdd \/ DoReset \/ DoContext \/ DoUnlock \/ DoGet \/ DoFind \/ Done
Pools(z) == IF Rich THEN LET m == RandomElement({1, 2, 10}) IN
            [q |-> TLCEval([i \in 1..PoolSize |-> RandomElement(0..m)]), b |-> TLCEval([i \in 1..PoolSize |-> RandomElement(0..m)])]
            ELSE [q |-> Guess(PoolSize), b |-> Guess(PoolSize)]
Init == \E z \in (IF Rich THEN 1..300 ELSE {1}): pool = Pools(z) /\ CRInit(pool) /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
T(h) == "TEST " \o ToJson(<<[pool |-> pool, ev |-> h]>>)
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT(T(hist')))
        \/ GEN = "2" /\ (Room \/ PrintT(T(hist)))
=============================================================================
