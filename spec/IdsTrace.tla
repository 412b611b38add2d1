------------------------------ MODULE IdsTrace ------------------------------
(* Checks recorded histories of the real code against Ids: every event carries the call and everything *)
(* that is observable after it.                                                                       *)
EXTENDS Ids, Json, TLC, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<len, batch, made, pool, used, objs, res, tid, l>>
Ev == Traces[tid].ev
Matches(e) ==
    LET o == Obs' IN
    \/ o = e.obs
    \/ PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(o)) /\ FALSE
TraceInit == IdInit /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ Apply(Ev[l])
       /\ Matches(Ev[l])
       /\ l' = l + 1 /\ tid' = tid
    \/ /\ l = Len(Ev) + 1
       /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1
       /\ UNCHANGED <<idvars, tid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
