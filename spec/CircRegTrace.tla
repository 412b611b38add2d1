------------------------------ MODULE CircRegTrace ------------------------------
(* Checks recorded histories of the real code against CircReg: every event carries the call and everything *)
(* that is observable after it.                                                                       *)
EXTENDS CircReg, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<circs, lab, res, val, tid, l>>
Ev == Traces[tid].ev
Matches(e) ==
    LET o == IF e.look THEN Obs(TRUE)' ELSE Obs(FALSE)' IN
    \/ o = e.obs
    \/ PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(o)) /\ FALSE
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ CRInit(Traces[tid].pool)
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ Apply(Ev[l])
       /\ Matches(Ev[l])
       /\ l' = l + 1 /\ tid' = tid
    \/ /\ l = Len(Ev) + 1
       /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1
       /\ UNCHANGED <<circs, lab, res, val, tid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
