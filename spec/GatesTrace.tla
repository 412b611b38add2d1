------------------------------ MODULE GatesTrace ------------------------------
(* Checks recorded histories of the real code against Gates: every event carries the call and everything *)
(* that is observable after it.                                                                       *)
EXTENDS Gates, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<objs, res, tid, l>>
Ev == Traces[tid].ev
Matches(e) ==
    LET o == Obs' IN
    \/ o = e.obs
    \/ PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(o)) /\ FALSE
TraceInit == GInit /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ Apply(Ev[l])
       /\ Matches(Ev[l])
       /\ l' = l + 1 /\ tid' = tid
    \/ /\ l = Len(Ev) + 1
       /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1
       /\ UNCHANGED <<objs, res, tid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
