------------------------------- MODULE RunsMC -------------------------------
(* Random (or exhaustive) histories of building, simulating, sampling and changing one circuit. *)
EXTENDS SimMC
CONSTANT MaxEvents
VARIABLES hist, ops0, bits0, phase
rvars == <<simvars, hist, ops0, bits0, phase>>
E(e) == hist' = Append(hist, e)
Keep == UNCHANGED <<ops0, bits0, phase>>
Room == phase = "run" /\ pc = 0 /\ Len(hist) < MaxEvents
Seeds == IF Rich THEN {0, 1, 2, 3000000} ELSE {0, 1}
Measures == {i \in 1..Len(prog): prog[i].g = "Measurement" /\ kept[i].v # <<>>}
RBuild == phase = "build" /\ Add /\ UNCHANGED <<hist, ops0, bits0, phase>>
RReady == /\ phase = "build" /\ Len(prog) >= MinLen /\ (Rich => Len(prog) >= MaxLen)
          /\ phase' = "run" /\ ops0' = prog /\ bits0' = bits /\ UNCHANGED <<simvars, hist>>
RSimulate == Room /\ Start /\ Keep /\ \E s \in Pick(Seeds): E([op |-> "simulate", seed |-> s])
\* running it again from the bits of the beginning, with the seed of the first run
First == hist[CHOOSE i \in 1..Len(hist): hist[i].op = "simulate" /\ \A j \in 1..(i - 1): hist[j].op # "simulate"]
Restore == [i \in 1..NumBits |-> [op |-> "set_bit", i |-> i - 1, v |-> bits0[i]]]
RRerun == /\ Rich /\ Room /\ (\E i \in 1..Len(hist): hist[i].op = "simulate")
          /\ hist' = hist \o Restore \o <<First>>
          /\ vec' = Zero(n) /\ pc' = 1 /\ last' = [i \in 1..n |-> 2] /\ bits' = bits0
          /\ kept' = [i \in 1..Len(prog) |-> NoState] /\ UNCHANGED <<n, prog>> /\ Keep
RStep == phase = "run" /\ SimStep /\ Keep /\ UNCHANGED hist
RFinish == phase = "run" /\ Finished /\ pc' = 0 /\ UNCHANGED <<n, prog, vec, bits, kept, last, hist>> /\ Keep
RSetBit == Room /\ \E i \in Pick(0..(NumBits - 1)), v \in Pick(0..2): SetBit(i, v) /\ E([op |-> "set_bit", i |-> i, v |-> v]) /\ Keep
RSetState == Room /\ E([op |-> "set_state"]) /\ Keep /\ UNCHANGED simvars
RSample == Room /\ \E i \in Pick(Measures): \E q \in Pick(UNION {Places(n, w): w \in 1..n}), dflt \in Pick(BOOLEAN):
              /\ E([op |-> "sample", i |-> i, q |-> IF dflt THEN prog[i].q ELSE q, dflt |-> dflt])
              /\ Keep /\ UNCHANGED simvars
RRemove == Room /\ Len(prog) > 1 /\ \E i \in Pick(1..Len(prog)): RemoveAt(i) /\ E([op |-> "remove", i |-> i]) /\ Keep
RAppend == Room /\ \E i \in Pick(1..Len(ops0)): AppendOp(ops0[i]) /\ E([op |-> "append", o |-> ops0[i]]) /\ Keep
RReparam == Rich /\ Room /\ \E i \in Pick({i \in 1..Len(prog): prog[i].p # <<>>}):
               LET p == TLCEval([j \in 1..Len(prog[i].p) |-> RandomElement(0..7)]) IN
               Reparam(i, p) /\ E([op |-> "reparam", i |-> i, p |-> p]) /\ Keep
RRebuild == Rich /\ Room /\ Rebuild /\ E([op |-> "rebuild"]) /\ Keep
\* enough events, or only repetition left
RDone == phase = "run" /\ pc = 0 /\ Len(hist) >= MaxEvents /\ UNCHANGED rvars
RNext == RBuild \/ RReady \/ RSimulate \/ RRerun \/ RStep \/ RFinish \/ RSetBit \/ RSetState \/ RSample \/ RRemove \/ RAppend \/ RReparam \/ RRebuild \/ RDone
RInit == Init /\ hist = <<>> /\ ops0 = <<>> /\ bits0 = bits /\ phase = "build"
RSpec == RInit /\ [][RNext]_rvars
REmit == (GEN # "0" /\ phase = "run" /\ pc = 0 /\ Len(hist) >= MaxEvents /\ (GEN = "1" \/ hist' = hist)) =>
            PrintT("TEST " \o ToJson(<<[n |-> n, bits |-> bits0, ops |-> ops0, ev |-> hist]>>))
=============================================================================
