----------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Are executions recorded from the real code behaviours of PTNEngine?     *)
(* The file named by the environment variable TRACES holds one JSON object *)
(* per line, {tid, conds: [[function, value]], ev: [events]}.  A trace is  *)
(* accepted when some behaviour consumes all its events; its number is     *)
(* then printed.  Internal steps are inferred.                             *)
(***************************************************************************)
EXTENDS PTNEngine, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
Ev == Traces[tid].ev
tvars == <<vars, tid, l>>

TraceInit ==
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ LET c == Traces[tid].conds
     IN Init([f \in {c[i][1] : i \in DOMAIN c} |-> \E i \in DOMAIN c : c[i][1] = f /\ c[i][2]])

Event(e) ==
  CASE e.e = "call" -> Call(e.th, e.op, e.a)
    [] e.e = "ret" -> Ret(e.th, e.x, e.v)
    [] e.e = "condb" -> CondBegin(e.th, e.f)
    [] e.e = "cond" -> CondEval(e.th, e.f, e.v, e.x)
    [] e.e = "actb" -> ActBegin(e.th, e.f)
    [] e.e = "acte" -> ActEnd(e.th, e.f, e.x)
    [] e.e = "setc" -> SetCond(e.th, e.f, e.v)
    [] e.e = "tick" -> Tick(e.now, e.forced)
    [] e.e = "log" -> Log(e.th, e.st, e.v)
    [] e.e = "nothread" -> NoThread(e.th)
    [] e.e = "drained" -> Drained(e.left # 0, Range(e.held))
    [] OTHER -> FALSE                     \* deadlock, hang, uaf, crash, ...

(***************************************************************************)
(* Search reduction.  Internal steps before the next event e need not be   *)
(* explored when e is possible now and every internal step commutes with   *)
(* it (taken after e it is still possible, and leads to a state that       *)
(* allows at least as much as the one reached in the other order).         *)
(***************************************************************************)
UniqueAction(f) ==      \* only one place and direction has this action
  Cardinality({<<p, k>> \in (DOMAIN eng.pl) \X {"e", "x"} : (IF k = "e" THEN eng.pl[p].en ELSE eng.pl[p].ex) = f}) = 1

RetNow(e) ==
  LET c == calls[e.th] IN
  /\ e.th \in DOMAIN calls
  /\ CASE c.op \in ReadOps -> ReadOk(e.th, e.x, e.v)
       [] c.op = "exec" -> c.lin /\ run.st # "single"
       [] OTHER -> c.lin /\ e.th \notin DOMAIN sync /\ c.op # "del"

InternalUseful(e) ==
  CASE e.e \in {"call", "acte"} -> FALSE
    [] e.e = "setc" -> \E th \in DOMAIN calls : calls[th].op = "exec" /\ ~calls[th].lin
    [] e.e = "ret" -> ~RetNow(e)
    [] e.e = "actb" ->
         ~ \/ e.th \in DOMAIN sync
           \/ Net \in DOMAIN sync /\ sync[Net].f = e.f /\ sync[Net].st = "pend" /\ q = <<>> /\ bag = Empty
           \/ sync = Empty /\ bag = Empty /\ q # <<>> /\ Head(q).f = e.f /\ eng.mode = "JOB_QUEUE"
           \/ sync = Empty /\ q = <<>> /\ eng.mode = "DETACHED" /\ UniqueAction(e.f) /\ \E a \in DOMAIN bag : a.f = e.f
    [] OTHER -> TRUE

\* (JOB_QUEUE) what is queued is what the trace begins next
Ahead ==
  LET jq == Traces[tid].jq
      n == Traces[tid].jn[l']
  IN \/ jq = <<>>
     \/ q' = q
     \/ \A i \in DOMAIN q' : n + i <= Len(jq) => q'[i].f = jq[n + i]

TraceNext ==
  /\ l <= Len(Ev)
  /\ \/ l' = l /\ InternalUseful(Ev[l]) /\ Internal
     \/ l' = l + 1 /\ Event(Ev[l]) /\ SeenUpdate(FALSE)
  /\ tid' = tid
  /\ Ahead

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(***************************************************************************)
(* TLC searches depth first (option IStateQueue=StateDeque, one worker)    *)
(* and stops searching for a trace once it is accepted, or after too many  *)
(* states (undecided).  Register tid holds the number of states, -1: done. *)
(***************************************************************************)
Limit == atoi(IOEnv.LIMIT)
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Report == \/ TLCGet(tid) < 0
          \/ /\ l > Len(Ev)
             /\ PrintT(<<"ACCEPTED", Traces[tid].tid, TLCGet(tid)>>)
             /\ TLCSet(tid, -1)
          \/ /\ l <= Len(Ev)
             /\ IF TLCGet(tid) < Limit THEN TLCSet(tid, TLCGet(tid) + 1)
                ELSE PrintT(<<"UNDECIDED", Traces[tid].tid>>) /\ TLCSet(tid, -1)
Open == TLCGet(tid) >= 0
\* for the diagnosis of a rejected trace: how far it was matched
Progress == PrintT(<<"MATCHED", Traces[tid].tid, l - 1>>)

(***************************************************************************)
(* Numbers: ordinary ones, or (64 bit) four 16 bit limbs, low limb first   *)
(***************************************************************************)
IntAdd(a, b) == a + b
IntSub(a, b) == a - b
IntLe(a, b) == a <= b
IntFits(a, b) == TRUE
Zero == 0
One == 1

B == 65536
BigZero == <<0, 0, 0, 0>>
BigOne == <<1, 0, 0, 0>>
RECURSIVE AddL(_, _, _, _)
AddL(a, b, i, c) == IF i > 4 THEN <<c>>
                    ELSE LET s == a[i] + b[i] + c IN <<s % B>> \o AddL(a, b, i + 1, s \div B)
BigAdd(a, b) == SubSeq(AddL(a, b, 1, 0), 1, 4)
BigFits(a, b) == AddL(a, b, 1, 0)[5] = 0
RECURSIVE SubL(_, _, _, _)
SubL(a, b, i, c) == IF i > 4 THEN <<>>
                    ELSE LET s == a[i] - b[i] - c
                         IN <<IF s < 0 THEN s + B ELSE s>> \o SubL(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BigSub(a, b) == SubL(a, b, 1, 0)
RECURSIVE LeL(_, _, _)
LeL(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeL(a, b, i - 1)
BigLe(a, b) == LeL(a, b, 4)
=============================================================================
