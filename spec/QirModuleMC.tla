----------------------------- MODULE QirModuleMC -----------------------------
EXTENDS QirModule, Json, IOUtils
CONSTANTS MaxMods, MaxLen, MaxDepth, Rich
GEN == IOEnv.GEN
VARIABLES hist
mcvars == <<mvars, hist>>
View == <<mods, Len(hist)>>
Room == Len(hist) < MaxDepth
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Do(e) == Room /\ Apply(e) /\ hist' = Append(hist, e)
Ms == 1..Len(mods)
Rarely(k, z) == Rich => RandomElement(1..k) = 1
RECURSIVE Draw(_, _)
Draw(w, S) == IF w = 0 THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Draw(w - 1, S \ {x})
Vals(w) == [i \in 1..w |-> RandomElement(0..9)]
Ins(t, f, p, q, r) == [t |-> t, f |-> f, p |-> p, q |-> q, r |-> r]
One == {"x", "y", "z", "h", "s", "t"}
Rot == {"rx", "ry", "rz"}
Two == {"cx", "cz"}
BaseIns(f, nq) == Ins("base", f, IF f \in Rot THEN Vals(1) ELSE <<>>, Draw(IF f \in Two THEN 2 ELSE 1, 0..(nq - 1)), <<>>)
MzIns(nq, nb) == Ins("mz", "mz", <<>>, <<RandomElement(0..(nq - 1))>>, <<RandomElement(0..(nb - 1))>>)
ExtIns(d, nq) == Ins("ext", d.f, Vals(d.np), [k \in 1..d.nq |-> RandomElement(0..(nq - 1))], <<>>)
Bads == {"unknown", "skip", "few", "many"}
Externals == {[f |-> "rot", np |-> 3, nq |-> 1], [f |-> "ccnot", np |-> 0, nq |-> 3], [f |-> "crx", np |-> 1, nq |-> 2],
              [f |-> "swap", np |-> 0, nq |-> 2], [f |-> "banana", np |-> 2, nq |-> 1], [f |-> "kiwi", np |-> 0, nq |-> 0], [f |-> "cherry", np |-> 4, nq |-> 3]}
\* what circuits have
OfCirc == {d \in Externals: d.f \notin {"banana", "kiwi", "cherry"}}
Heads(z) == IF Rich THEN {[name |-> RandomElement({"a", "Circuit", "", "a.b", "x.ll", "main", "two words", "q\"\\"}), major |-> RandomElement({1, 1, 2}), minor |-> RandomElement({0, 0, 7}),
                       dq |-> RandomElement(1..4) = 1, dr |-> RandomElement(1..4) = 1]} ELSE {Plain}
DoNew == Len(mods) < MaxMods /\ \E nq \in Pick(IF Rich THEN 0..4 ELSE {2}), nb \in Pick(IF Rich THEN 0..3 ELSE {1}), head \in Heads(Len(hist)): Do([op |-> "new", head |-> head, nq |-> nq, nb |-> nb, shared |-> (Rich /\ RandomElement(1..2) = 1)])
Body(k, nq) == [i \in 1..k |-> IF RandomElement(1..3) = 1 THEN LET d == RandomElement(OfCirc) IN Ins("ext", d.f, Vals(d.np), Draw(d.nq, 0..(nq - 1)), <<>>)
                               ELSE BaseIns(RandomElement(One \cup Rot \cup Two), nq)]
DoOf == Rich /\ Len(mods) < MaxMods /\ \E nq \in Pick(3..4), nb \in Pick(1..3): \E k \in Pick(0..4), j \in Pick(0..2):
          LET b == Body(k, nq) ms == [i \in 1..j |-> MzIns(nq, nb)] IN Do([op |-> "of", nq |-> nq, nb |-> nb, body |-> b, meas |-> ms])
Has == {m \in Ms: mods[m].nq > 1 /\ mods[m].nb > 0 /\ Len(mods[m].body) < MaxLen}
Add1 == \E m \in Pick(Has): \E i \in (IF Rich THEN {BaseIns(RandomElement(One \cup Rot \cup Two), mods[m].nq)} ELSE {Ins("base", "x", <<>>, <<0>>, <<>>), Ins("base", "cx", <<>>, <<1, 0>>, <<>>)}):
          Do([op |-> "add", m |-> m, blk |-> IF Rich /\ RandomElement(1..10) = 1 THEN RandomElement({"meas", "other"}) ELSE "body", i |-> i])
Add2 == \E m \in Pick(Has): \E i \in (IF Rich THEN {MzIns(mods[m].nq, mods[m].nb)} ELSE {Ins("mz", "mz", <<>>, <<0>>, <<0>>)}):
          Do([op |-> "add", m |-> m, blk |-> IF Rich /\ RandomElement(1..6) = 1 THEN "body" ELSE "meas", i |-> i])
Add3 == \E m \in Pick(Has): \E i \in (IF Rich THEN {Ins("out", "out", <<>>, <<>>, <<RandomElement(0..(mods[m].nb - 1))>>)} ELSE {Ins("out", "out", <<>>, <<>>, <<0>>)}):
          Do([op |-> "add", m |-> m, blk |-> "out", i |-> i])
\* functions that may not be declared
Add4 == \E m \in Pick(Has): \E d \in (IF Rich THEN (IF mods[m].decl # {} /\ RandomElement(1..6) # 1 THEN {RandomElement(mods[m].decl)} ELSE {RandomElement(Externals)}) ELSE {[f |-> "kiwi", np |-> 0, nq |-> 0]}):
          Do([op |-> "add", m |-> m, blk |-> "body", i |-> IF Rich THEN ExtIns(d, mods[m].nq) ELSE Ins("ext", d.f, <<>>, <<>>, <<>>)])
\* the last instruction once more
Add6 == Rich /\ Rarely(2, 0) /\ \E m \in Pick({m \in Has: mods[m].body # <<>> /\ mods[m].body[Len(mods[m].body)].t = "base"}):
          Do([op |-> "add", m |-> m, blk |-> "body", i |-> mods[m].body[Len(mods[m].body)]])
Add5 == Rarely(4, 0) /\ \E m \in Pick(Has), b \in Pick(Bads): Do([op |-> "add", m |-> m, blk |-> "body", i |-> Ins("bad", b, <<>>, <<>>, <<>>)])
DoMany == Rich /\ Rarely(40, 0) /\ \E m \in Pick(Has), k \in Pick(40..300): mods[m].body = <<>> /\
          Do([op |-> "many", m |-> m, is |-> TLCEval([j \in 1..k |-> BaseIns(RandomElement(One \cup Rot \cup Two), mods[m].nq)])])
DoDeclare == \E m \in Pick(Has): \E d \in Pick({d \in (IF Rich THEN Externals ELSE {[f |-> "kiwi", np |-> 0, nq |-> 0]}): ~Declared(m, d.f)}): Do([op |-> "declare", m |-> m, d |-> d])
DoRet == Rarely(2, 0) /\ \E m \in Pick(Ms), v \in Pick(IF Rich THEN 0..2 ELSE 0..1), force \in Pick(BOOLEAN): Do([op |-> "setret", m |-> m, v |-> v, force |-> force])
DoCompile == \E m \in Pick(Ms), force \in Pick(BOOLEAN), strict \in Pick(BOOLEAN): Do([op |-> "compile", m |-> m, force |-> force, strict |-> strict])
DoRead == \E m \in Pick(Ms): Do([op |-> "read", m |-> m])
DoReset == Rarely(2, 0) /\ \E m \in Pick(Ms), rm \in Pick(BOOLEAN): Do([op |-> "reset", m |-> m, rm |-> rm])
Done == ~Room /\ UNCHANGED mcvars
Next == DoNew \/ DoOf \/ Add1 \/ Add2 \/ Add3 \/ Add4 \/ Add5 \/ Add6 \/ DoMany \/ DoDeclare \/ DoRet \/ DoCompile \/ DoRead \/ DoReset \/ Done
Init == XInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars
\* the output changes only when the module is compiled or reset
Stays == [][\A m \in Ms: mods'[m].prog # mods[m].prog \/ mods'[m].compiled # mods[m].compiled =>
              LET e == hist'[Len(hist')] IN e.op \in {"compile", "reset", "read"} /\ e.m = m /\ (e.op = "read" => ~mods[m].compiled)
                 /\ (e.op = "compile" /\ mods[m].compiled => e.force)]_mcvars
Exact == [][\A m \in Ms: mods'[m].compiled /\ (~mods[m].compiled \/ mods'[m].prog # mods[m].prog) => mods'[m].prog = Prog(mods'[m])]_mcvars
T(h) == "TEST " \o ToJson(<<h>>)
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT(T(hist')))
        \/ GEN = "2" /\ (Room \/ PrintT(T(hist)))
=============================================================================
