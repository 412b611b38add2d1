------------------------------ MODULE SimTrace ------------------------------
(* Judges recorded histories of real circuits that are simulated.  A trace is [n, ops, bits, ev] with *)
(* events append, remove, set_bit, set_state, simulate [seed, le, mixed, obs: [res, bits, dig, prog]] *)
(* and sample [i, q, got].  States are real numbers in the code: for every behaviour of the           *)
(* specification that explains the observed bits the exact states are printed (STATE) and compared    *)
(* by the harness.  dig identifies the observed outcome (bits and states) of a run.                   *)
EXTENDS Sim, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, memo,   \* memo: keys and outcomes of all runs so far
          before          \* bits before the current run
tvars == <<tid, l, memo, before>>
T == Traces[tid]
Ev == T.ev[l]
Out(s) == IF Ev.le THEN Reversed(s, n) ELSE s
\* rho[i][j] = v_i * conj(v_j), rows
Rho(s) == [i \in 1..Len(s.v) |-> [j \in 1..Len(s.v) |-> RMul(s.v[i], RConj(s.v[j]))]]
Report == [vec |-> Out(vec).v, k |-> vec.k, d |-> vec.d, p |-> Norm2(vec),
           rho |-> IF Ev.rho THEN Rho(Out(vec)) ELSE <<>>,
           kept |-> [i \in 1..Len(prog) |-> kept[i].v],
           bits |-> bits]
Key == [prog |-> prog, bits |-> before, seed |-> Ev.seed, le |-> Ev.le, mixed |-> Ev.mixed]
Repeats == \A i \in 1..Len(memo): memo[i].key = Key => memo[i].dig = Ev.obs.dig
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ memo = <<>> /\ before = Traces[tid].bits
             /\ SimInit(Traces[tid].n, Traces[tid].ops, Traces[tid].bits)
Next1 == l' = l + 1 /\ UNCHANGED <<tid, memo, before>>
IsEv(o) == l <= Len(T.ev) /\ Ev.op = o
TraceNext ==
    \/ IsEv("simulate") /\ pc = 0 /\ Start /\ before' = bits /\ UNCHANGED <<tid, l, memo>>
    \/ SimStep /\ UNCHANGED tvars
    \/ /\ IsEv("simulate") /\ Finished /\ Ev.obs.res = "ok"
       /\ IF Ev.any THEN TRUE ELSE bits = Ev.obs.bits /\ prog = Ev.obs.prog /\ Repeats
       /\ PrintT("STATE " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(Report))
       /\ memo' = Append(memo, [key |-> Key, dig |-> Ev.obs.dig])
       /\ pc' = 0 /\ l' = l + 1
       /\ UNCHANGED <<n, prog, vec, bits, kept, last, tid, before>>
    \* the unitary of the program, column by column
    \/ /\ IsEv("unitary") /\ pc = 0
       /\ PrintT("UNITARY " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(Columns(n, prog)))
       /\ UNCHANGED simvars /\ Next1
    \/ IsEv("reset") /\ ResetProg /\ Next1
    \/ IsEv("reparam") /\ Reparam(Ev.i, Ev.p) /\ Next1
    \/ IsEv("rebuild") /\ Rebuild /\ Next1
    \/ IsEv("append") /\ AppendOp(Ev.o) /\ Next1
    \/ IsEv("remove") /\ RemoveAt(Ev.i) /\ Next1
    \/ IsEv("set_bit") /\ SetBit(Ev.i, Ev.v) /\ Next1
    \/ IsEv("set_state") /\ pc = 0 /\ UNCHANGED simvars /\ Next1
    \/ /\ IsEv("sample") /\ pc = 0
       \* (a measurement that was not executed in the latest run has nothing to sample)
       /\ \/ kept[Ev.i].v = <<>>
          \/ Ev.obs.res = "ok" /\ \A j \in 1..Len(Ev.obs.got): Ev.obs.got[j] \in Samples(Ev.i, Ev.q)
       /\ UNCHANGED simvars /\ Next1
    \* the exact distribution of sampling the qubits q of the measurement at position i
    \/ /\ IsEv("dist") /\ pc = 0 /\ kept[Ev.i].v # <<>>
       /\ PrintT("DIST " \o ToString(tid) \o " " \o ToString(l) \o " " \o
                 ToJson([t |-> Norm2(kept[Ev.i]), o |-> {[o |-> r.o, p |-> Norm2(r.s)]: r \in Outcomes(kept[Ev.i], Ev.q)}]))
       /\ UNCHANGED simvars /\ Next1
    \/ /\ l = Len(T.ev) + 1 /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1 /\ UNCHANGED <<simvars, tid, memo, before>>
TraceSpec == TraceInit /\ [][TraceNext]_<<simvars, tvars>>
\* how far each trace got: the last event that was reached
Progress == PrintT("REACHED " \o ToString(tid) \o " " \o ToString(l))
TraceInv == NeverZero /\ BitsTyped /\ Complete
=============================================================================
