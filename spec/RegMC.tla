------------------------------- MODULE RegMC -------------------------------
(* Exploration of Reg within small constants.  With GEN=1 every transition is printed as a test (the *)
(* events of a history that ends with it); with GEN=2 the history of a random run is printed at its end. *)
EXTENDS Reg, Json, TLC, IOUtils

CONSTANTS MaxRegs, MaxDepth, Univ, Rich
GEN == IOEnv.GEN

VARIABLES hist
mcvars == <<regs, res, val, hist>>
View == <<regs, Len(hist)>>

Seqs == {<<>>} \cup {<<x>> : x \in Univ} \cup {<<x, y>> : x, y \in Univ}
Seqs3 == Seqs \cup (IF Rich THEN {<<x, y, z>> : x, y, z \in Univ} ELSE {})
SliceArgs == {<<None, None, None>>, <<1, None, None>>, <<None, -1, None>>, <<-2, None, None>>,
              <<None, None, -1>>, <<0, 9, 2>>, <<2, 0, -1>>}
RichSlices == {<<a, b, c>> : a, b \in {None, -4, -2, -1, 0, 1, 2, 3, 7}, c \in {None, 1, 2, -1, -2}}
\* in random runs the arguments of a call are drawn, in exhaustive ones enumerated
Pick(S) == IF Rich /\ S # {} THEN {RandomElement(S)} ELSE S
Room == Len(regs) < MaxRegs
E(ev) == hist' = Append(hist, ev)
More == Len(hist) < MaxDepth

\* stretches of integers (given as ranges)
Ranges == {<<>>, <<1000>>, <<1000, 1001>>, <<1000, 1001, 1002>>, <<1001, 1002>>, <<1001>>, <<1000, 1002>>, <<1002, 1001, 1000>>,
           <<1002, 1001>>, <<1001, 1002, 1003>>, <<1003, 1001>>, <<1000, 1001, 1002, 1003>>, <<1002, 1003>>}
DoCreate == More /\ Room /\ \E xs \in Pick(IF Rich /\ RandomElement(1..3) = 1 THEN Ranges ELSE Seqs3): Create(xs) /\ E([op |-> "create", xs |-> xs])
DoCreateFrom == More /\ Room /\ \E r \in Pick(Ids): CreateFrom(r) /\ E([op |-> "create_from", r |-> r])
DoCopy == More /\ Room /\ \E r \in Pick(Ids): Copy(r) /\ E([op |-> "copy", r |-> r])
DoAdd == More /\ \E r \in Pick(Ids), xs \in Pick(IF Rich /\ RandomElement(1..5) = 1 THEN Ranges ELSE Seqs): Add(r, xs) /\ E([op |-> "add", r |-> r, xs |-> xs])
DoAddReg == More /\ \E r \in Pick(Ids), s \in Pick(Ids): r # s /\ AddReg(r, s) /\ E([op |-> "add_reg", r |-> r, s |-> s])
DoPlus == More /\ Room /\ \E r \in Pick(Ids), s \in Pick(Ids): Plus(r, s) /\ E([op |-> "plus", r |-> r, s |-> s])
DoSlice == More /\ Room /\ \E r \in Pick(Ids), a \in Pick(IF Rich THEN RichSlices ELSE SliceArgs):
              Slice(r, a[1], a[2], a[3]) /\ E([op |-> "slice", r |-> r, a |-> a[1], b |-> a[2], c |-> a[3]])
DoFreeze == More /\ \E r \in Pick(Ids): Freeze(r) /\ E([op |-> "freeze", r |-> r])
DoAt == More /\ Rich /\ \E r \in Pick(Ids), i \in Pick(-4..4): At(r, i) /\ E([op |-> "at", r |-> r, i |-> i])
DoPop == More /\ \E r \in Pick(Ids): Pop(r) /\ E([op |-> "pop", r |-> r])
DoRemove == More /\ \E r \in Pick(Ids), x \in Pick(Univ): RemoveItem(r, x) /\ E([op |-> "remove", r |-> r, x |-> x])
DoClear == More /\ Rich /\ \E r \in Pick(Ids): Clear(r) /\ E([op |-> "clear", r |-> r])
DoAppendNew == More /\ \E r \in Pick(Ids): AppendNew(r) /\ E([op |-> "append_new", r |-> r])
DoRelabel == More /\ Rich /\ \E r \in Pick(Ids): \E i \in Pick(1..Len(Items(r))), x \in Pick(Univ):
                LET o == <<Items(r)[i]>> n == <<x>> IN
                Relabel(r, o, n) /\ E([op |-> "relabel", r |-> r, olds |-> o, news |-> n])
DoSwap == More /\ Rich /\ \E r \in Pick(Ids): \E i \in Pick(1..Len(Items(r))), j \in Pick(1..Len(Items(r))): i # j /\
                LET o == <<Items(r)[i], Items(r)[j]>> n == <<Items(r)[j], Items(r)[i]>> IN
                Relabel(r, o, n) /\ E([op |-> "relabel", r |-> r, olds |-> o, news |-> n])
DoRelabelInts == More /\ Rich /\ \E r \in Pick(Ids): RelabelInts(r) /\ E([op |-> "relabel_ints", r |-> r])
Done == ~More /\ UNCHANGED mcvars

Next == \/ DoCreate \/ DoCreateFrom \/ DoCopy \/ DoAdd \/ DoAddReg \/ DoPlus \/ DoSlice \/ DoFreeze
        \/ DoAt \/ DoPop \/ DoRemove \/ DoClear \/ DoAppendNew \/ DoRelabel \/ DoSwap \/ DoRelabelInts
        \/ Done
Init == RegInit /\ hist = <<>>
Spec == Init /\ [][Next]_mcvars

\* evaluated once per transition
Emit == \/ GEN = "0"
        \/ GEN = "1" /\ (hist' = hist \/ PrintT("TEST " \o ToJson(hist')))
        \/ GEN = "2" /\ (More \/ PrintT("TEST " \o ToJson(hist)))

Inv == RegDistinct /\ RegLookup
Maintenance == {"pop", "remove", "append_new", "clear", "relabel", "relabel_ints"}
MaintFree == hist' = hist \/ hist'[Len(hist')].op \notin Maintenance
FrozenImmutable == [][MaintFree => \A r \in Ids: regs[r].frozen => regs'[r] = regs[r]]_mcvars
Isolated == RegIsolated
FrozenStays == RegFrozenStays
\* public calls never drop or reorder items; rejected ones add at most a prefix of the given items
Grows == [][MaintFree => \A r \in Ids: IsPrefix(Items(r), regs'[r].items)]_mcvars
NewIsFresh == [][Len(regs') > Len(regs) => ~regs'[Len(regs')].frozen]_mcvars
=============================================================================
