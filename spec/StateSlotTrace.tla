------------------------------ MODULE StateSlotTrace ------------------------------
(* Checks recorded histories of the real code against StateSlot: every event carries the call and everything *)
(* that is observable after it.                                                                       *)
EXTENDS StateSlot, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<nq, slot, res, tid, l>>
Ev == Traces[tid].ev
Matches(e) ==
    LET o == Obs' IN
    \* the array the circuit holds is, within rounding, the one the specification says
    \/ o = e.obs /\ (slot'.kind = "none" \/ \E i \in 1..Len(e.holds): e.holds[i] = slot')
    \/ PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson([obs |-> o, holds |-> slot'])) /\ FALSE
TraceInit == SSInit /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ Apply(Ev[l])
       /\ Matches(Ev[l])
       /\ l' = l + 1 /\ tid' = tid
    \/ /\ l = Len(Ev) + 1
       /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1
       /\ UNCHANGED <<nq, slot, res, tid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
