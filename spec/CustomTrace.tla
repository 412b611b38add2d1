------------------------------ MODULE CustomTrace ------------------------------
(* Checks recorded histories of the real code against Custom: every event carries the call and everything *)
(* that is observable after it.                                                                       *)
EXTENDS Custom, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<circs, classes, insts, res, tid, l>>
Ev == Traces[tid].ev
Matches(e) ==
    LET o == Obs' IN
    \/ o = e.obs
    \/ PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(o)) /\ FALSE
TraceInit == CuInit /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ Apply(Ev[l])
       /\ Matches(Ev[l])
       /\ IF HasNumbers(Ev[l]) THEN PrintT("NUMBERS " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(Numbers(Ev[l]))) ELSE TRUE
       /\ l' = l + 1 /\ tid' = tid
    \/ /\ l = Len(Ev) + 1
       /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1
       /\ UNCHANGED <<circs, classes, insts, res, tid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
