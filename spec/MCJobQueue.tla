----------------------------- MODULE MCJobQueue -----------------------------
(***************************************************************************)
(* JobQueue explored exhaustively: every interleaving of the calls of up   *)
(* to two clients and of one job that adds a job, with the worker.         *)
(***************************************************************************)
EXTENDS JobQueue, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.MC)    \* {tid, progs: [[{op, f}]], adder: job that adds a job}

VARIABLES tid, pc, h, extra
mvars == <<vars, tid, pc, h, extra>>

Progs == Cases[tid].progs
Clients == DOMAIN Progs
Worker == 100

MCInit == /\ tid \in DOMAIN Cases
          /\ alive = TRUE /\ act = TRUE /\ q = <<>> /\ cur = <<>> /\ stuck = <<>> /\ calls = Empty
          /\ pc = [c \in Clients |-> 1]
          /\ h = [added |-> <<>>, begun |-> <<>>, dropped |-> <<>>, last |-> ""]
          /\ extra = 0        \* 1: the job in progress is adding a job, 2: it has

MCCall(th) ==
  /\ th \in Clients /\ th \notin DOMAIN calls /\ pc[th] <= Len(Progs[th]) /\ alive
  /\ LET c == Progs[th][pc[th]] IN
     /\ c.op = "jdel" => (DOMAIN calls = {} /\ extra # 1)
     /\ c.op # "jdel" => \A o \in DOMAIN calls : calls[o].op # "jdel"
     /\ Call(th, c.op, c.f)
  /\ pc' = [pc EXCEPT ![th] = @ + 1]
  /\ h' = [h EXCEPT !.last = "call"] /\ UNCHANGED extra
MCLin == \E th \in DOMAIN calls :
  /\ Lin(th)
  /\ h' = [h EXCEPT !.added = IF calls[th].op = "jadd" THEN Append(@, calls[th].f) ELSE @,
                    !.dropped = IF calls[th].op = "jdel" THEN @ \o q ELSE @, !.last = "lin"]
  /\ UNCHANGED <<pc, extra>>
MCNoThread == \E th \in DOMAIN calls : NoThread(th) /\ stuck = <<>> /\ h' = [h EXCEPT !.last = "nothread"] /\ UNCHANGED <<pc, extra>>
MCStart == Start /\ h' = [h EXCEPT !.last = "start"] /\ UNCHANGED <<pc, extra>>
MCBegin == cur # <<>> /\ JobBegin(Worker, cur[1]) /\ h' = [h EXCEPT !.begun = Append(@, cur[1]), !.last = "begin"]
           /\ extra' = 0 /\ UNCHANGED pc
MCEnd == cur # <<>> /\ extra # 1 /\ Worker \notin DOMAIN calls
         /\ JobEnd(Worker, cur[1]) /\ h' = [h EXCEPT !.last = "end"] /\ UNCHANGED <<pc, extra>>
MCRet(th) == /\ th \in DOMAIN calls
             /\ \E v \in {TRUE, FALSE} : Ret(th, v)
             /\ h' = [h EXCEPT !.last = IF calls[th].op = "jdeact" THEN "deactret" ELSE "ret"]
             /\ extra' = IF th = Worker THEN 2 ELSE extra
             /\ UNCHANGED pc
\* the job adds a job
MCJobAdds == /\ cur = <<Cases[tid].adder, Worker>> /\ extra = 0 /\ alive
             /\ \A o \in DOMAIN calls : calls[o].op # "jdel"
             /\ Call(Worker, "jadd", "j") /\ extra' = 1 /\ h' = [h EXCEPT !.last = "call"] /\ UNCHANGED pc

Done == calls = Empty /\ (~alive \/ \A c \in Clients : pc[c] > Len(Progs[c])) /\ cur = <<>> /\ (alive /\ act => q = stuck)
Step == MCLin \/ MCStart \/ MCBegin \/ MCEnd \/ MCJobAdds \/ \E th \in Clients \cup {Worker} : MCCall(th) \/ MCRet(th)
MCNext == (Step \/ MCNoThread \/ (Done /\ UNCHANGED <<vars, pc, h, extra>>)) /\ tid' = tid
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(Step /\ tid' = tid)

Started == IF cur # <<>> /\ cur[2] = -1 THEN Append(h.begun, cur[1]) ELSE h.begun
\* nothing is lost, duplicated or reordered
InOrder == Started \o q \o h.dropped = h.added
\* after deactivate returned no job is in progress unless the queue was activated since
PausedIsQuiet == [][(h'.last = "start") => act]_mvars
DeactWaits == [][(h'.last = "deactret" /\ ~act /\ Cardinality(Clients) = 1) => cur = <<>>]_mvars
OneAtATime == Len(cur) \in {0, 2}
CallsReturn == \A th \in 1 .. 2 : (th \in DOMAIN calls) ~> (th \notin DOMAIN calls)
JobsRun == (alive /\ act /\ q # <<>>) ~> (~alive \/ ~act \/ q = <<>>)
Bound == TLCGet("distinct") < atoi(IOEnv.MCLIMIT)
=============================================================================
