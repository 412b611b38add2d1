------------------------------ MODULE RegTrace ------------------------------
(* Checks recorded histories of real registers against Reg.  A trace is [univ: Seq(item), ev: Seq(event)]; *)
(* every event carries the call, its arguments and everything observable afterwards.                       *)
EXTENDS Reg, Json, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
tvars == <<regs, res, val, tid, l>>

Ev == Traces[tid].ev

Apply(e) ==
    CASE e.op = "create" -> Create(e.xs)
      [] e.op = "create_from" -> CreateFrom(e.r)
      [] e.op = "copy" -> Copy(e.r)
      [] e.op = "add" -> Add(e.r, e.xs)
      [] e.op = "add_reg" -> AddReg(e.r, e.s)
      [] e.op = "plus" -> Plus(e.r, e.s)
      [] e.op = "slice" -> Slice(e.r, e.a, e.b, e.c)
      [] e.op = "freeze" -> Freeze(e.r)
      [] e.op = "unfreeze" -> Unfreeze(e.r)
      [] e.op = "at" -> At(e.r, e.i)
      [] e.op = "param" -> IndexParam(e.r, e.i)
      [] e.op = "pop" -> Pop(e.r)
      [] e.op = "remove" -> RemoveItem(e.r, e.x)
      [] e.op = "clear" -> Clear(e.r)
      [] e.op = "append_new" -> AppendNew(e.r)
      [] e.op = "relabel" -> Relabel(e.r, e.olds, e.news)
      [] e.op = "relabel_ints" -> RelabelInts(e.r)

Matches(e) ==
    LET o == [res |-> res', val |-> val', regs |-> Obs(regs', Traces[tid].univ)] IN
    \/ o = e.obs
    \/ PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToJson(o)) /\ FALSE

TraceInit == RegInit /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
    \/ /\ l <= Len(Ev)
       /\ Apply(Ev[l])
       /\ Matches(Ev[l])
       /\ l' = l + 1 /\ tid' = tid
    \/ /\ l = Len(Ev) + 1
       /\ PrintT("ACCEPT " \o ToString(tid))
       /\ l' = l + 1
       /\ UNCHANGED <<regs, res, val, tid>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* the invariants of the specification are evaluated along every recorded history
TraceInv == RegDistinct /\ RegLookup
=============================================================================
