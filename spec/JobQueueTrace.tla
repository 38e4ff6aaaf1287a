---------------------------- MODULE JobQueueTrace ----------------------------
(***************************************************************************)
(* Are executions recorded from the real JobQueue behaviours of JobQueue?  *)
(* As EngineTrace.                                                         *)
(***************************************************************************)
EXTENDS JobQueue, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Limit == atoi(IOEnv.LIMIT)

VARIABLES tid, l
Ev == Traces[tid].ev

TraceInit == tid \in DOMAIN Traces /\ l = 1 /\ Init

Event(e) ==
  CASE e.e = "call" -> Call(e.th, e.op, e.a.f)
    [] e.e = "ret" -> e.x = "" /\ Ret(e.th, e.v)
    [] e.e = "actb" -> JobBegin(e.th, e.f)
    [] e.e = "acte" -> JobEnd(e.th, e.f)
    [] e.e = "nothread" -> NoThread(e.th)
    [] e.e = "tick" -> IF e.forced THEN UNCHANGED vars ELSE Tick
    [] e.e = "drained" -> Drained(e.left # 0, {e.held[i] : i \in DOMAIN e.held})
    [] OTHER -> FALSE

TraceNext ==
  /\ l <= Len(Ev)
  /\ \/ l' = l /\ Internal
     \/ l' = l + 1 /\ Event(Ev[l])
  /\ tid' = tid

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Report == \/ TLCGet(tid) < 0
          \/ /\ l > Len(Ev)
             /\ PrintT(<<"ACCEPTED", Traces[tid].tid, TLCGet(tid)>>)
             /\ TLCSet(tid, -1)
          \/ /\ l <= Len(Ev)
             /\ IF TLCGet(tid) < Limit THEN TLCSet(tid, TLCGet(tid) + 1)
                ELSE PrintT(<<"UNDECIDED", Traces[tid].tid>>) /\ TLCSet(tid, -1)
Open == TLCGet(tid) >= 0
Progress == PrintT(<<"MATCHED", Traces[tid].tid, l - 1>>)
=============================================================================
