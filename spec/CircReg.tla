------------------------------- MODULE CircReg -------------------------------
(* The registers of circuits: qubits and bits in labelled registers.  Kinds are "q" and "b".  Items are  *)
(* numbered: those the caller has (1..Pool, of either kind), then those that circuits make, as they are  *)
(* made.  Labels of registers are numbers too: DFLT + i is the default label number i of its kind.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT DFLT
VARIABLES circs,   \* Seq of [q, b: Seq of [lab, items], locked]
          lab,     \* labels of all items, by kind
          res, val
cvars == <<circs, lab, res, val>>

Kinds == {"q", "b"}
CRInit(pool) == circs = <<>> /\ lab = pool /\ res = "ok" /\ val = <<>>
Flat(rs) == FlattenSeq([i \in 1..Len(rs) |-> rs[i].items])
Items(c, k) == Flat(circs[c][k])
Labels(rs) == {rs[i].lab: i \in 1..Len(rs)}
PosOf(rs, l) == CHOOSE i \in 1..Len(rs): rs[i].lab = l
Result(r, v) == res' = r /\ val' = v
Rejected == UNCHANGED <<circs, lab>> /\ Result("err", <<>>)

\* the default label of the next register
Default(rs) == DFLT + (CHOOSE i \in Len(rs)..(2 * Len(rs)): DFLT + i \notin Labels(rs) /\ \A j \in Len(rs)..(i - 1): DFLT + j \in Labels(rs))
\* n new items of kind k, labelled labs
Fresh(k, n) == [i \in 1..n |-> Len(lab[k]) + i]
LabOf(labs, i) == IF i <= Len(labs) THEN labs[i] ELSE 0
More(k, n, labs) == [lab EXCEPT ![k] = lab[k] \o [i \in 1..n |-> LabOf(labs, i)]]

\* a circuit; counts of -1 are not given
NewCirc(n, m, qlabs, blabs) ==
    LET reg(k, w) == IF w < 0 THEN <<>> ELSE <<[lab |-> DFLT, items |-> Fresh(k, w)]>> IN
    /\ circs' = Append(circs, [q |-> reg("q", n), b |-> reg("b", m), locked |-> FALSE])
    /\ lab' = [q |-> IF n < 0 THEN lab["q"] ELSE lab["q"] \o [i \in 1..n |-> LabOf(qlabs, i)],
               b |-> IF m < 0 THEN lab["b"] ELSE lab["b"] \o [i \in 1..m |-> LabOf(blabs, i)]]
    /\ Result("ok", <<>>)

\* l = -1: no label; l = -2: not a label
AddReg(c, k, n, l, labs) ==
    LET rs == circs[c][k] IN
    IF l = -2 \/ n < 0 \/ l \in Labels(rs) THEN Rejected
    ELSE /\ circs' = [circs EXCEPT ![c][k] = Append(rs, [lab |-> IF l = -1 THEN Default(rs) ELSE l, items |-> Fresh(k, n)])]
         /\ lab' = More(k, n, labs) /\ Result("ok", <<>>)
\* x = 0: a new item; x = -1: something else
AddItem(c, k, x, l, labs) ==
    LET rs == circs[c][k]
        it == IF x = 0 THEN Len(lab[k]) + 1 ELSE x IN
    IF x = -1 \/ l = -2 \/ (x > 0 /\ Contains(Items(c, k), x)) THEN Rejected
    ELSE /\ circs' = [circs EXCEPT ![c][k] =
                IF l = -1 THEN (IF rs = <<>> THEN <<[lab |-> DFLT, items |-> <<it>>]>>
                                ELSE [rs EXCEPT ![1].items = Append(@, it)])
                ELSE IF l \in Labels(rs) THEN [rs EXCEPT ![PosOf(rs, l)].items = Append(@, it)]
                ELSE Append(rs, [lab |-> l, items |-> <<it>>])]
         /\ lab' = IF x = 0 THEN More(k, 1, labs) ELSE lab
         /\ Result("ok", <<>>)
Reset(c, keep) == /\ circs' = [circs EXCEPT ![c].locked = FALSE,
                                            ![c].q = IF keep THEN @ ELSE <<>>,
                                            ![c].b = IF keep THEN @ ELSE <<>>]
                  /\ UNCHANGED lab /\ Result("ok", <<>>)
\* a context hands out the registers and locks the circuit
Context(c) == IF circs[c].locked THEN Rejected
              ELSE circs' = [circs EXCEPT ![c].locked = TRUE] /\ UNCHANGED lab /\ Result("ok", <<Items(c, "q"), Items(c, "b")>>)
Unlock(c) == circs' = [circs EXCEPT ![c].locked = FALSE] /\ UNCHANGED lab /\ Result("ok", <<>>)

\* the items with a label, in all registers (l = -1) or one
Get(c, k, name, l, all) ==
    LET rs == circs[c][k]
        \* (a register that is not there)
        from == IF l = -1 THEN Flat(rs) ELSE IF l \in Labels(rs) THEN rs[PosOf(rs, l)].items ELSE <<>>
        hits == SelectSeq(from, LAMBDA x: lab[k][x] = name) IN
    UNCHANGED <<circs, lab>> /\ IF hits = <<>> THEN Result("err", <<>>)
                               ELSE Result("ok", <<IF all THEN hits ELSE <<hits[1]>>>>)
\* register and index of an item
Find(c, k, x, label) ==
    LET rs == circs[c][k] at == {i \in 1..Len(rs): Contains(rs[i].items, x)} IN
    UNCHANGED <<circs, lab>> /\
    IF at = {} THEN Result("err", <<>>)
    ELSE LET i == CHOOSE i \in at: TRUE
             j == CHOOSE j \in 1..Len(rs[i].items): rs[i].items[j] = x IN
         Result("ok", <<<<IF label THEN rs[i].lab ELSE i - 1, j - 1>>>>)

Apply(e) ==
    CASE e.op = "new" -> NewCirc(e.n, e.m, e.qlabs, e.blabs)
      [] e.op = "addreg" -> AddReg(e.c, e.k, e.n, e.l, e.labs)
      [] e.op = "add" -> AddItem(e.c, e.k, e.x, e.l, e.labs)
      [] e.op = "reset" -> Reset(e.c, e.keep)
      [] e.op = "context" -> Context(e.c)
      [] e.op = "unlock" -> Unlock(e.c)
      [] e.op = "get" -> Get(e.c, e.k, e.name, e.l, e.all)
      [] e.op = "find" -> Find(e.c, e.k, e.x, e.label)
      [] e.op = "look" -> UNCHANGED <<circs, lab>> /\ Result("ok", <<>>)

\* where the items known are found (the first ones)
Found(c, k) == [x \in 1..(IF Len(lab[k]) < 8 THEN Len(lab[k]) ELSE 8) |->
                   LET rs == circs[c][k] at == {i \in 1..Len(rs): Contains(rs[i].items, x)} IN
                   IF at = {} THEN <<>> ELSE LET i == CHOOSE i \in at: TRUE IN <<i - 1, (CHOOSE j \in 1..Len(rs[i].items): rs[i].items[j] = x) - 1>>]
View1(c) == [qfound |-> Found(c, "q"), bfound |-> Found(c, "b"), q |-> Items(c, "q"), b |-> Items(c, "b"), nq |-> Len(Items(c, "q")), nb |-> Len(Items(c, "b")),
             qregs |-> circs[c].q, bregs |-> circs[c].b, locked |-> circs[c].locked]
\* what is looked at after an event: everything, or only its result
Obs(look) == [res |-> res, val |-> val, circs |-> IF look THEN [c \in 1..Len(circs) |-> View1(c)] ELSE <<>>]

\* --------------------------------------------------------------- properties
NoDuplicates == \A c \in 1..Len(circs): \A k \in Kinds: Cardinality(ToSet(Items(c, k))) = Len(Items(c, k))
LabelsDiffer == \A c \in 1..Len(circs): \A k \in Kinds: Cardinality(Labels(circs[c][k])) = Len(circs[c][k])
Separate == [][Cardinality({c \in 1..Len(circs): circs'[c] # circs[c]}) <= 1]_cvars
\* without a reset, items stay where they are
Stay == [][\A c \in 1..Len(circs): \A k \in Kinds: circs'[c][k] = <<>> \/
             \A i \in 1..Len(circs[c][k]): circs'[c][k][i].lab = circs[c][k][i].lab /\
                IsPrefix(circs[c][k][i].items, circs'[c][k][i].items)]_cvars
=============================================================================
