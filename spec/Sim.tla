-------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* Simulation of a program of gates, measurements and conditional          *)
(* operations.  An operation is [g: kind, q: qubit positions, p: angles,   *)
(* b: positions of measurement bits, c: positions of condition bits].      *)
(* One action per operation of the program; measuring is nondeterministic. *)
(***************************************************************************)
EXTENDS Ring

VARIABLES n,      \* number of qubits
          prog,   \* the program
          vec,    \* state vector: normalised but for the measured outcomes
          bits,   \* values of the bits; 2 is unset
          pc,     \* 0 before a run; Len(prog)+1 after it
          kept,   \* kept[i]: the state kept with the measurement at position i, in its latest run
          last    \* last[q+1]: result of measuring q when no gate acted on q since; else 2
simvars == <<n, prog, vec, bits, pc, kept, last>>

NoState == [v |-> <<>>, k |-> 0, d |-> 1]
SimInit(k, p, bs) == /\ n = k /\ prog = p /\ bits = bs /\ pc = 0
                     /\ vec = Zero(k) /\ kept = [i \in 1..Len(p) |-> NoState]
                     /\ last = [i \in 1..k |-> 2]
Op == prog[pc]
Running == pc >= 1 /\ pc <= Len(prog)
Finished == pc = Len(prog) + 1

\* a run starts from the all-zero state, whatever was there; the bits keep their values
\* what a measurement keeps refers to the latest run only
Start == /\ vec' = Zero(n) /\ pc' = 1 /\ last' = [i \in 1..n |-> 2]
         /\ kept' = [i \in 1..Len(prog) |-> NoState]
         /\ UNCHANGED <<n, prog, bits>>
\* an operation is executed iff none of its condition bits is 0 now
Blocked(o) == \E i \in 1..Len(o.c): bits[o.c[i] + 1] = 0
Skip == Running /\ Blocked(Op) /\ pc' = pc + 1 /\ UNCHANGED <<n, prog, vec, bits, kept, last>>
Gate == /\ Running /\ ~Blocked(Op) /\ Op.g # "Measurement"
        /\ vec' = ApplyGate(vec, n, Op.g, Op.q, Op.p)
        /\ last' = IF Op.g = "Barrier" THEN last
                   ELSE [i \in 1..n |-> IF \E j \in 1..Len(Op.q): Op.q[j] = i - 1 THEN 2 ELSE last[i]]
        /\ pc' = pc + 1 /\ UNCHANGED <<n, prog, bits, kept>>

\* all results of measuring the qubits qs in order, with the states they leave
RECURSIVE Outcomes(_, _)
Outcomes(s, qs) ==
    IF qs = <<>> THEN {[o |-> <<>>, s |-> s]}
    ELSE UNION {LET t == Project(s, n, Head(qs), b) IN
                IF IsZero(t) THEN {} ELSE {[o |-> <<b>> \o r.o, s |-> r.s]: r \in Outcomes(t, Tail(qs))}: b \in 0..1}
RECURSIVE Store(_, _, _)
Store(bs, targets, os) == IF targets = <<>> THEN bs
                          ELSE Store([bs EXCEPT ![Head(targets) + 1] = Head(os)], Tail(targets), Tail(os))
RECURSIVE Remember(_, _, _)
Remember(ls, qs, os) == IF qs = <<>> THEN ls
                        ELSE Remember([ls EXCEPT ![Head(qs) + 1] = Head(os)], Tail(qs), Tail(os))
MeasureAs(r) == /\ vec' = r.s
                /\ bits' = Store(bits, Op.b, r.o)
                /\ last' = Remember(last, Op.q, r.o)
                /\ kept' = [kept EXCEPT ![pc] = vec]
Measure == /\ Running /\ ~Blocked(Op) /\ Op.g = "Measurement"
           /\ \E r \in Outcomes(vec, Op.q): MeasureAs(r)
           /\ pc' = pc + 1 /\ UNCHANGED <<n, prog>>
\* the calls around a run
AppendOp(o) == /\ pc = 0 /\ prog' = Append(prog, o) /\ kept' = Append(kept, NoState)
               /\ UNCHANGED <<n, vec, bits, pc, last>>
RemoveAt(i) == /\ pc = 0 /\ prog' = SubSeq(prog, 1, i - 1) \o SubSeq(prog, i + 1, Len(prog))
               /\ kept' = SubSeq(kept, 1, i - 1) \o SubSeq(kept, i + 1, Len(kept))
               /\ UNCHANGED <<n, vec, bits, pc, last>>
\* the same program on new qubits and bits (with the same values), or a copy of the circuit: what a run does depends
\* on the program, the values of the bits and the seed only
Rebuild == pc = 0 /\ kept' = [i \in 1..Len(prog) |-> NoState] /\ UNCHANGED <<n, prog, vec, bits, pc, last>>
ResetProg == pc = 0 /\ prog' = <<>> /\ kept' = <<>> /\ UNCHANGED <<n, vec, bits, pc, last>>
\* the parameters of an operation are changed in place
Reparam(i, p) == /\ pc = 0 /\ prog' = [prog EXCEPT ![i].p = p]
                 /\ UNCHANGED <<n, vec, bits, pc, kept, last>>
\* the unitary of a program without measurements, by columns (states: vectors with denominators)
RECURSIVE RunAll(_, _, _)
RunAll(s, k, p) == IF p = <<>> THEN s ELSE RunAll(ApplyGate(s, k, Head(p).g, Head(p).q, Head(p).p), k, Tail(p))
Columns(k, p) == [j \in 1..Pow2(k) |-> RunAll(Basis(k, j - 1), k, p)]
SetBit(i, v) == /\ pc = 0 /\ bits' = [bits EXCEPT ![i + 1] = v]
                /\ UNCHANGED <<n, prog, vec, pc, kept, last>>
\* a sample of the measurement at position i is a possible result of measuring the kept state
Samples(i, qs) == {r.o: r \in Outcomes(kept[i], qs)}
SimStep == Skip \/ Gate \/ Measure

\* ------------------------------------------------------------- properties
\* gates are unitary: the norm stays exactly 1 as long as nothing was measured
NormKept == [][pc >= 1 /\ pc' = pc + 1 /\ (Gate \/ Skip) =>
                 (Normalised(vec) => Normalised(vec'))]_simvars
NeverZero == ~IsZero(vec)
BitsTyped == \A i \in 1..Len(bits): bits[i] \in 0..2
\* the probabilities of the results of a measurement add up to that of the state before it
RECURSIVE SumNorms(_)
SumNorms(S) == IF S = {} THEN R0 ELSE LET r == CHOOSE r \in S: TRUE IN RAdd(Norm2(r.s), SumNorms(S \ {r}))
Complete == Running /\ Op.g = "Measurement" => SumNorms(Outcomes(vec, Op.q)) = Norm2(vec)
\* measuring again without a gate in between gives the same result and changes nothing
Repeatable == [][pc >= 1 /\ Measure => \A i \in 1..n: last[i] # 2 => last'[i] = last[i]]_simvars
BlockedIdle == [][pc' = pc + 1 /\ pc >= 1 /\ Blocked(Op) => vec' = vec /\ bits' = bits /\ kept' = kept]_simvars
\* only measured bits change, only in a measurement
OnlyMeasured == [][pc' = pc + 1 /\ pc >= 1 => \A i \in 1..Len(bits): bits'[i] # bits[i] =>
                      Op.g = "Measurement" /\ \E j \in 1..Len(Op.b): Op.b[j] = i - 1]_simvars
ProgramKept == [][pc >= 1 => prog' = prog /\ n' = n]_simvars
=============================================================================
