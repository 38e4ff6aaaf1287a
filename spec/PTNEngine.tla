------------------------------ MODULE PTNEngine ------------------------------
(***************************************************************************)
(* The observable behaviour of ptn-engine: what a program that uses the    *)
(* library (API calls, callbacks, passing of time) can see.                *)
(*                                                                         *)
(* The specification is an open system.  Its actions are                   *)
(*   - events: Call, Ret (API calls and returns), ActBegin, ActEnd         *)
(*     (actions run by the engine), CondBegin, CondEval (a condition       *)
(*     evaluated by the engine), Log (a state written to the log), SetCond *)
(*     (the user changes what a condition returns), Tick (every thread is  *)
(*     blocked and time passes), Drained (all threads the engine made are  *)
(*     gone);                                                              *)
(*   - internal steps: Lin (an API call takes effect), FireStart and Move  *)
(*     (the net fires a transition, moving tokens arc by arc).             *)
(*                                                                         *)
(* MCEngine explores the system exhaustively for small nets and programs;  *)
(* EngineTrace checks that executions recorded from the real code are      *)
(* behaviours of it.  What is not an action here (a deadlock, an access to *)
(* freed memory, an action run twice, an event after stop returned ...)    *)
(* cannot be part of an accepted execution.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  NAdd(_,_), NSub(_,_), NLe(_,_),   \* token numbers: sum, difference, at most
  NFits(_,_),                       \* the sum is representable
  NZero, NOne,
  SEQ                               \* only one client thread and no concurrency: merge invisible moves

VARIABLES
  eng,    \* the engine: mode, sleep duration, net structure, marking, registries
  run,    \* is the net being executed, and on which thread
  ctl,    \* the firing in progress, if any
  sync,   \* thread |-> synchronous action to run / running on it (Net: the thread of the net)
  q,      \* JOB_QUEUE: actions triggered and not begun, in trigger order
  bag,    \* DETACHED: actions triggered and not begun, with multiplicity
  jobs,   \* thread |-> asynchronous action running on it
  role,   \* thread made by the engine |-> what it was seen doing
  calls,  \* thread |-> API call in progress
  seen,   \* thread |-> values the projection a read in progress looks at had during the call
  ever,   \* transitions enabled at some instant since the last move of the net
  cseen,  \* conditions that returned true last time, since the last firing
  lseen,  \* when logging: sets of places, and per place numbers of tokens, since the last firing
  cv,     \* condition function |-> what it returns
  since,  \* transition that could fire (net running) |-> since when
  tm      \* virtual time

vars == <<eng, run, ctl, sync, q, bag, jobs, role, calls, seen, ever, cseen, lseen, cv, since, tm>>

Net == -1                            \* key in sync of the thread that executes the net
Empty == <<>>                        \* the function with empty domain
NoRun == [st |-> "off", th |-> -1, log |-> FALSE, logged |-> FALSE, stream |-> 0]
Idle  == [mv |-> <<>>, err |-> "", cin |-> ""]   \* no firing, no evaluation of a condition in progress
ReadOps == {"tok", "running", "getmode", "getsleep", "props", "print", "export"}
AsyncModes == {"JOB_QUEUE", "DETACHED"}
SyncModes == {"SINGLE_THREAD", "EVENT_LOOP"}

Range(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a >= b THEN a ELSE b
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == (x :> v) @@ f

DeadEngine == [alive |-> FALSE, mode |-> "EVENT_LOOP", slp |-> 100, pl |-> Empty, tr |-> Empty,
               m |-> Empty, ra |-> Empty, rc |-> Empty, nid |-> 0]
NewEngine(mode) == [DeadEngine EXCEPT !.alive = TRUE, !.mode = mode]

(***************************************************************************)
(* Petri net                                                               *)
(***************************************************************************)
\* arcs are <<place, weight>>
ActPlaces(e, t) == {a[1] : a \in Range(e.tr[t].act)}
EnabledIn(e, t) ==
  /\ \A i \in DOMAIN e.tr[t].act : NLe(e.tr[t].act[i][2], e.m[e.tr[t].act[i][1]])
  /\ \A i \in DOMAIN e.tr[t].inh : e.m[e.tr[t].inh[i][1]] = NZero
EnabledSet(e) == {t \in DOMAIN e.tr : EnabledIn(e, t)}

\* on-enter action of place number id triggered and not finished
EnterBusy(id) ==
  \/ \E i \in DOMAIN q : q[i].k = "e" /\ q[i].id = id
  \/ \E a \in DOMAIN bag : a.k = "e" /\ a.id = id
  \/ \E th \in DOMAIN jobs : jobs[th].k = "e" /\ jobs[th].id = id
  \/ \E th \in DOMAIN sync : sync[th].k = "e" /\ sync[th].id = id
RnaOk(t) == eng.tr[t].rna => \A p \in ActPlaces(eng, t) : ~EnterBusy(eng.pl[p].id)

HasRna == \E t \in DOMAIN eng.tr : eng.tr[t].rna

\* may fire at the next move of the net
MayFire(t) == t \in ever /\ RnaOk(t) /\ Range(eng.tr[t].cf) \subseteq cseen
\* would fire if the net evaluated it now
CanFire(t) == EnabledIn(eng, t) /\ RnaOk(t) /\ \A c \in Range(eng.tr[t].cf) : c # "" /\ cv[c]
Fireable == {t \in DOMAIN eng.tr : CanFire(t)}
\* evaluating a condition that is no function throws; it has to be evaluated when nothing else is missing
HasNull(t) == \E i \in DOMAIN eng.tr[t].cf : eng.tr[t].cf[i] = ""
Throwing == {t \in DOMAIN eng.tr : EnabledIn(eng, t) /\ RnaOk(t) /\ HasNull(t)
                                    /\ \A i \in DOMAIN eng.tr[t].cf : eng.tr[t].cf[i] # "" => cv[eng.tr[t].cf[i]]}

MovesOf(t) == [i \in DOMAIN eng.tr[t].act |-> <<"x", eng.tr[t].act[i][1], eng.tr[t].act[i][2]>>]
              \o [i \in DOMAIN eng.tr[t].dst |-> <<"e", eng.tr[t].dst[i][1], eng.tr[t].dst[i][2]>>]

ActionOf(e, p, k) == [k |-> k, id |-> e.pl[p].id, f |-> IF k = "e" THEN e.pl[p].en ELSE e.pl[p].ex]
HasAction(e, p, k) == (IF k = "e" THEN e.pl[p].en ELSE e.pl[p].ex) # ""

AfterMove(mk, mv) ==
  [mk EXCEPT ![mv[2]] = IF mv[1] = "e" THEN NAdd(@, mv[3])
                        ELSE IF mv[3] = NZero THEN NZero   \* reset arc
                        ELSE NSub(@, mv[3])]

\* trigger the action of an arrival (k = "e") or a departure (k = "x"); th runs it in synchronous modes
Trigger(e, th, p, k) ==
  LET a == ActionOf(e, p, k) IN
  IF ~HasAction(e, p, k) THEN UNCHANGED <<sync, q, bag>>
  ELSE IF e.mode \in SyncModes
       THEN sync' = With(sync, th, [k |-> k, id |-> a.id, f |-> a.f, st |-> "pend"]) /\ UNCHANGED <<q, bag>>
  ELSE IF e.mode = "JOB_QUEUE" THEN q' = Append(q, a) /\ UNCHANGED <<sync, bag>>
  ELSE bag' = (IF a \in DOMAIN bag THEN [bag EXCEPT ![a] = @ + 1] ELSE With(bag, a, 1)) /\ UNCHANGED <<sync, q>>

NetIdle == ctl = Idle /\ Net \notin DOMAIN sync
NetOn == run.st # "off"

(***************************************************************************)
(* The net fires.  A firing is a sequence of moves, one per arc, and the   *)
(* next move waits for a synchronous action triggered by the previous one. *)
(***************************************************************************)
\* number of moves made in one step: one, or (SEQ) up to the first one with an action
MoveCount(mvs) ==
  IF mvs = <<>> THEN 0
  ELSE IF ~SEQ THEN 1
  ELSE LET S == {i \in DOMAIN mvs : HasAction(eng, mvs[i][2], mvs[i][1])}
       IN IF S = {} THEN Len(mvs) ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE AfterMoves(_, _, _)
AfterMoves(mk, mvs, n) == IF n = 0 THEN mk ELSE AfterMoves(AfterMove(mk, Head(mvs)), Tail(mvs), n - 1)

DoMoves(mvs) ==
  LET n == MoveCount(mvs)
      rest == SubSeq(mvs, n + 1, Len(mvs))
      e2 == [eng EXCEPT !.m = AfterMoves(@, mvs, n)]
  IN /\ eng' = e2
     /\ IF n = 0 THEN UNCHANGED <<sync, q, bag>> ELSE Trigger(eng, Net, mvs[n][2], mvs[n][1])
     /\ ctl' = [ctl EXCEPT !.mv = rest]
     /\ IF rest = <<>> THEN ever' = EnabledSet(e2) /\ cseen' = {} ELSE UNCHANGED <<ever, cseen>>

Fire(t) ==
  /\ NetOn /\ NetIdle /\ MayFire(t)
  /\ DoMoves(MovesOf(t))
  /\ UNCHANGED <<run, jobs, role, calls, cv, tm>>

Move ==
  /\ ctl.mv # <<>> /\ ctl.err = "" /\ Net \notin DOMAIN sync
  /\ DoMoves(ctl.mv)
  /\ UNCHANGED <<run, jobs, role, calls, cv, tm>>

NullCond(t) ==
  /\ run.st = "single" /\ NetIdle /\ HasNull(t)
  /\ ctl' = [Idle EXCEPT !.err = "PTN_Exception"]
  /\ UNCHANGED <<eng, run, sync, q, bag, jobs, role, calls, ever, cseen, cv, tm>>

(***************************************************************************)
(* API: errors an operation on engine state e may report ({}: it succeeds) *)
(* and its effect on the engine state otherwise.  on: the net is running.  *)
(***************************************************************************)
If(c, x) == IF c THEN {x} ELSE {}
Dup(arcs) == \E i, j \in DOMAIN arcs : i # j /\ arcs[i][1] = arcs[j][1]
ZeroW(arcs) == \E i \in DOMAIN arcs : arcs[i][2] = NZero
Unknown(e, arcs) == \E i \in DOMAIN arcs : arcs[i][1] \notin DOMAIN e.pl
HasArc(arcs, p) == \E i \in DOMAIN arcs : arcs[i][1] = p
RmArc(arcs, p) == SelectSeq(arcs, LAMBDA x : x[1] # p)
NamedFn(reg, name, fn) == IF name = "" THEN fn ELSE IF name \in DOMAIN reg THEN reg[name] ELSE ""

Errs(op, a, e, on) ==
  CASE op = "place" ->
         If(a.p = "", "PTN_Exception") \cup If(a.p \in DOMAIN e.pl, "RepeatedPlaceException")
         \cup If(a.enN # "" /\ a.enN \notin DOMAIN e.ra, "InvalidFunctionNameException")
         \cup If(a.exN # "" /\ a.exN \notin DOMAIN e.ra, "InvalidFunctionNameException")
         \cup If(a.enN # "" /\ a.enN \in DOMAIN e.ra /\ e.ra[a.enN] = "", "PTN_Exception")
         \cup If(a.exN # "" /\ a.exN \in DOMAIN e.ra /\ e.ra[a.exN] = "", "PTN_Exception")
    [] op = "trans" ->
         If(a.t = "" \/ a.t \in DOMAIN e.tr, "PTN_Exception")
         \cup If(Unknown(e, a.act) \/ Unknown(e, a.dst) \/ Unknown(e, a.inh), "PTN_Exception")
         \cup If(Dup(a.act), "ActivationPlaceRepetitionException")
         \cup If(Dup(a.dst), "DestinationPlaceRepetitionException")
         \cup If(Dup(a.inh), "InhibitorPlaceRepetitionException")
         \cup If(ZeroW(a.act) \/ ZeroW(a.dst) \/ ZeroW(a.inh), "ZeroValueWeightException")
         \cup If(\E i \in DOMAIN a.cn : a.cn[i] \notin DOMAIN e.rc, "InvalidFunctionNameException")
    [] op = "addarc" ->
         If(on \/ a.p \notin DOMAIN e.pl \/ a.t \notin DOMAIN e.tr, "PTN_Exception")
         \cup (IF a.t \notin DOMAIN e.tr THEN {} ELSE
               If(\/ a.k \in {"A", "B"} /\ HasArc(e.tr[a.t].act, a.p)
                  \/ a.k \in {"D", "B"} /\ HasArc(e.tr[a.t].dst, a.p)
                  \/ a.k = "I" /\ HasArc(e.tr[a.t].inh, a.p), "PTN_Exception"))
         \cup If(a.k \in {"D", "B"} /\ a.w = NZero, "ZeroValueWeightException")
    [] op = "rmarc" ->
         If(on \/ a.p \notin DOMAIN e.pl \/ a.t \notin DOMAIN e.tr, "PTN_Exception")
         \cup (IF a.t \notin DOMAIN e.tr THEN {} ELSE
               If(\/ a.k \in {"A", "B"} /\ ~HasArc(e.tr[a.t].act, a.p)
                  \/ a.k \in {"D", "B"} /\ ~HasArc(e.tr[a.t].dst, a.p)
                  \/ a.k = "I" /\ ~HasArc(e.tr[a.t].inh, a.p), "PTN_Exception"))
    [] op = "regact" ->
         If(a.n = "", "InvalidFunctionNameException") \cup If(a.n \in DOMAIN e.ra, "RepeatedFunctionException")
    [] op = "regcond" ->
         If(a.n = "", "InvalidFunctionNameException") \cup If(a.n \in DOMAIN e.rc, "RepeatedFunctionException")
    [] op \in {"clear", "setmode", "exec"} -> If(on, "PTN_Exception")
    [] op = "inc" ->
         IF a.p \notin DOMAIN e.pl THEN {"InvalidNameException"}
         ELSE IF ~e.pl[a.p].inp THEN {"NotInputPlaceException"}
         ELSE If(~NFits(e.m[a.p], NOne), "OverflowException")
    [] OTHER -> {}

Eff(op, a, e) ==
  CASE op = "place" ->
         [e EXCEPT !.pl = With(@, a.p, [inp |-> a.inp, id |-> e.nid,
                                        en |-> NamedFn(e.ra, a.enN, a.en), enN |-> a.enN,
                                        ex |-> NamedFn(e.ra, a.exN, a.ex), exN |-> a.exN]),
                   !.m = With(@, a.p, a.tok), !.nid = @ + 1]
    [] op = "trans" ->
         [e EXCEPT !.tr = With(@, a.t,
           [act |-> a.act, dst |-> a.dst, inh |-> a.inh, rna |-> a.rna,
            cn |-> IF a.cn # <<>> THEN a.cn ELSE [i \in DOMAIN a.cf |-> ""],
            cf |-> IF a.cn # <<>> THEN [i \in DOMAIN a.cn |-> e.rc[a.cn[i]]] ELSE a.cf])]
    [] op = "addarc" ->
         [e EXCEPT !.tr[a.t].act = IF a.k \in {"A", "B"} THEN Append(@, <<a.p, a.w>>) ELSE @,
                   !.tr[a.t].dst = IF a.k \in {"D", "B"} THEN Append(@, <<a.p, a.w>>) ELSE @,
                   !.tr[a.t].inh = IF a.k = "I" THEN Append(@, <<a.p, a.w>>) ELSE @]
    [] op = "rmarc" ->
         [e EXCEPT !.tr[a.t].act = IF a.k \in {"A", "B"} THEN RmArc(@, a.p) ELSE @,
                   !.tr[a.t].dst = IF a.k \in {"D", "B"} THEN RmArc(@, a.p) ELSE @,
                   !.tr[a.t].inh = IF a.k = "I" THEN RmArc(@, a.p) ELSE @]
    [] op = "regact" -> [e EXCEPT !.ra = With(@, a.n, a.f)]
    [] op = "regcond" -> [e EXCEPT !.rc = With(@, a.n, a.f)]
    [] op = "clear" -> [e EXCEPT !.pl = Empty, !.tr = Empty, !.m = Empty]
    [] op = "setmode" -> [e EXCEPT !.mode = a.mode]
    [] op = "setsleep" -> [e EXCEPT !.slp = a.v]
    [] op = "new" -> NewEngine(a.mode)
    [] op = "del" -> DeadEngine
    [] OTHER -> e
EditOps == {"place", "trans", "addarc", "rmarc", "regact", "regcond", "clear", "setmode", "setsleep"}

\* state after the first n of a sequence of operations (an import), none of which fails
RECURSIVE AfterOps(_, _, _)
AfterOps(e, ops, n) == IF n = 0 THEN e ELSE AfterOps(Eff(ops[1].op, ops[1].a, e), Tail(ops), n - 1)
\* number of the first operation that fails, Len + 1 if none
RECURSIVE FirstBad(_, _)
FirstBad(e, ops) == IF ops = <<>> THEN 1
                    ELSE IF Errs(ops[1].op, ops[1].a, e, FALSE) # {} THEN 1
                    ELSE 1 + FirstBad(Eff(ops[1].op, ops[1].a, e), Tail(ops))

(***************************************************************************)
(* API calls                                                               *)
(***************************************************************************)
Call(th, op, a) ==
  /\ th \notin DOMAIN calls
  /\ calls' = With(calls, th, [op |-> op, a |-> a, lin |-> op \in ReadOps, x |-> "", n |-> tm.n])
  /\ UNCHANGED <<eng, run, ctl, sync, q, bag, jobs, role, ever, cseen, cv, tm>>

Done(th, x) == calls' = [calls EXCEPT ![th].lin = TRUE, ![th].x = x]
OnRun == run.st = "loop"

LinEdit(th) ==
  LET c == calls[th]
      errs == Errs(c.op, c.a, eng, OnRun)
  IN /\ c.op \in EditOps
     /\ run.st # "single"      \* execute() in SINGLE_THREAD mode excludes other calls that change the net
     /\ IF errs # {}
        THEN (\E x \in errs : Done(th, x)) /\ UNCHANGED <<eng, ever, tm>>
        ELSE /\ Done(th, "")
             /\ eng' = Eff(c.op, c.a, eng)
             /\ ever' = IF NetOn THEN ever \cup EnabledSet(eng') ELSE ever
             /\ tm' = IF c.op = "setsleep" THEN [tm EXCEPT !.old = Max(@, tm.now + eng.slp)] ELSE tm
     /\ UNCHANGED <<run, ctl, sync, q, bag, jobs, role, cseen, cv>>

LinInc(th) ==
  LET c == calls[th]
      errs == Errs("inc", c.a, eng, OnRun)
  IN /\ c.op = "inc"
     /\ IF errs # {}
        THEN (\E x \in errs : Done(th, x)) /\ UNCHANGED <<eng, ever, sync, q, bag>>
        ELSE /\ Done(th, "")
             /\ eng' = [eng EXCEPT !.m[c.a.p] = NAdd(@, NOne)]
             /\ ever' = IF NetOn THEN ever \cup EnabledSet(eng') ELSE ever
             /\ Trigger(eng, th, c.a.p, "e")
     /\ tm' = IF run.st = "single" THEN [tm EXCEPT !.n = @ + 1] ELSE tm
     /\ UNCHANGED <<run, ctl, jobs, role, cseen, cv>>

LinExec(th) ==
  LET c == calls[th] IN
  /\ c.op = "exec"
  /\ IF OnRun
     THEN Done(th, "PTN_Exception") /\ UNCHANGED <<run, ever, cseen, tm>>
     ELSE /\ run.st = "off"
          /\ Done(th, "")
          /\ run' = IF eng.mode = "SINGLE_THREAD"
                    THEN [st |-> "single", th |-> th, log |-> c.a.log, logged |-> FALSE, stream |-> c.a.st]
                    ELSE [st |-> "loop", th |-> -1, log |-> c.a.log, logged |-> FALSE, stream |-> c.a.st]
          /\ ever' = EnabledSet(eng)
          /\ cseen' = {}
          /\ tm' = [tm EXCEPT !.dirty = tm.ended, !.old = -1]
  /\ UNCHANGED <<eng, ctl, sync, q, bag, jobs, role, cv>>

LinStop(th) ==
  /\ calls[th].op = "stop"
  /\ run.st # "single"
  /\ OnRun => NetIdle
  /\ Done(th, "")
  /\ run' = NoRun
  /\ UNCHANGED <<eng, ctl, sync, q, bag, jobs, role, ever, cseen, cv, tm>>

LinNew(th) ==
  /\ calls[th].op = "new"
  /\ ~eng.alive /\ run.st = "off"
  /\ Done(th, "")
  /\ eng' = [NewEngine(calls[th].a.mode) EXCEPT !.nid = eng.nid]   \* places of another engine are other places
  /\ UNCHANGED <<run, ctl, sync, q, bag, jobs, role, ever, cseen, cv, tm>>

\* destruction: the net stops, jobs not begun are dropped
LinDel(th) ==
  /\ calls[th].op = "del"
  /\ run.st # "single" /\ NetIdle
  /\ Done(th, "")
  /\ run' = NoRun
  /\ eng' = [DeadEngine EXCEPT !.nid = eng.nid]
  /\ q' = <<>>
  /\ UNCHANGED <<ctl, sync, bag, jobs, role, ever, cseen, cv, tm>>

\* import: stops the net, then the operations the file describes; a file that cannot be imported
\* (bad: malformed after a.ops) may have had the effect of any of the operations before the first bad one
LinImport(th) ==
  LET c == calls[th]
      ops == c.a.ops
      fb == FirstBad(eng, ops)
      ok == ~c.a.bad /\ fb = Len(ops) + 1
  IN /\ c.op = "import"
     /\ run.st # "single"
     /\ IF ok THEN /\ OnRun => NetIdle
                   /\ run' = NoRun
                   /\ eng' = AfterOps(eng, ops, Len(ops))
                   /\ Done(th, "")
        ELSE \/ /\ UNCHANGED <<run, eng>>
                /\ Done(th, "*")
             \/ /\ OnRun => NetIdle
                /\ run' = NoRun
                /\ \E n \in 0 .. fb - 1 : eng' = AfterOps(eng, ops, n)
                /\ Done(th, "*")
     /\ UNCHANGED <<ctl, sync, q, bag, jobs, role, ever, cseen, cv, tm>>

\* export that cannot write its file
LinExportBad(th) ==
  /\ calls[th].op = "exportbad"
  /\ Done(th, IF OnRun THEN "PTN_Exception" ELSE "*")
  /\ UNCHANGED <<eng, run, ctl, sync, q, bag, jobs, role, ever, cseen, cv, tm>>

Lin(th) ==
  /\ ~calls[th].lin
  /\ \/ LinEdit(th) \/ LinInc(th) \/ LinExec(th) \/ LinStop(th) \/ LinNew(th) \/ LinDel(th)
     \/ LinImport(th) \/ LinExportBad(th)

(***************************************************************************)
(* Reads: the value returned was the value at some instant of the call; a  *)
(* read of several places may see each at a different instant.             *)
(***************************************************************************)
Structure(e) == [pl |-> e.pl, tr |-> e.tr, mode |-> e.mode]
Projection(op, a, e, r) ==
  CASE op = "tok" -> IF a.p \in DOMAIN e.pl THEN <<e.m[a.p]>> ELSE <<>>
    [] op = "running" -> r.st = "loop"
    [] op = "getmode" -> e.mode
    [] op = "getsleep" -> e.slp
    [] op = "print" -> DOMAIN e.pl
    [] op \in {"props", "export"} -> <<Structure(e), r.st = "loop">>
PlaceWise(op) == op \in {"print", "props", "export"}
MergeM(f, mk) == [p \in DOMAIN f \cup DOMAIN mk |->
                    (IF p \in DOMAIN f THEN f[p] ELSE {}) \cup (IF p \in DOMAIN mk THEN {mk[p]} ELSE {})]

\* conjoined to every step; fired: the step completes a firing
SeenUpdate(fired) ==
  /\ seen' = [th \in {x \in DOMAIN calls' : calls'[x].op \in ReadOps} |->
       LET c == calls'[th]
           old == th \in DOMAIN seen
       IN [v |-> (IF old THEN seen[th].v ELSE {}) \cup {Projection(c.op, c.a, eng', run')},
           m |-> IF PlaceWise(c.op) THEN MergeM(IF old THEN seen[th].m ELSE Empty, eng'.m) ELSE Empty]]
  /\ lseen' = IF ~run'.log THEN Empty
              ELSE IF fired \/ run.st = "off"
                   THEN [d |-> {DOMAIN eng'.m}, m |-> MergeM(Empty, eng'.m)]
                   ELSE [d |-> lseen.d \cup {DOMAIN eng'.m}, m |-> MergeM(lseen.m, eng'.m)]
  /\ since' = IF run'.st # "loop" THEN Empty
              ELSE [t \in Fireable' |-> IF t \in DOMAIN since /\ (tm'.now = tm.now \/ ~tm'.forced)
                                        THEN since[t] ELSE tm'.now]

PlRow(e, p, tok) == <<p, tok, e.pl[p].inp, e.pl[p].enN, e.pl[p].en, e.pl[p].exN, e.pl[p].ex>>
TrRow(e, t) == <<t, e.tr[t].rna, e.tr[t].act, e.tr[t].dst, e.tr[t].inh, e.tr[t].cn, e.tr[t].cf>>
\* a file names functions, it does not contain them
PlRowX(e, p, tok) == <<p, tok, e.pl[p].inp, e.pl[p].enN, e.pl[p].exN>>
TrRowX(e, t) == <<t, e.tr[t].rna, e.tr[t].act, e.tr[t].dst, e.tr[t].inh, e.tr[t].cn>>

\* rows (first element: the name) describe exactly the elements of dom, each by a row satisfying P
Rows(rows, dom, P(_)) ==
  /\ Len(rows) = Cardinality(dom)
  /\ {rows[i][1] : i \in DOMAIN rows} = dom
  /\ \A i \in DOMAIN rows : P(rows[i])

ReadOk(th, x, v) ==
  LET c == calls[th]
      s == seen[th]
  IN CASE c.op = "tok" -> \/ x = "" /\ <<v>> \in s.v
                          \/ x = "InvalidNameException" /\ <<>> \in s.v
       [] c.op \in {"running", "getmode", "getsleep"} -> x = "" /\ v \in s.v
       [] c.op = "print" -> x = "" /\ \E d \in s.v : Rows(v, d, LAMBDA r : r[2] \in s.m[r[1]])
       [] c.op = "props" ->
            \* two reads: getPlacesProperties, then getTransitionsProperties
            /\ x = ""
            /\ \E z \in s.v :
                  Rows(v.pl, DOMAIN z[1].pl, LAMBDA r : r[2] \in s.m[r[1]] /\ r = PlRow(z[1], r[1], r[2]))
            /\ \E z \in s.v : Rows(v.tr, DOMAIN z[1].tr, LAMBDA r : r = TrRow(z[1], r[1]))
       [] c.op = "export" ->
            \/ x = "PTN_Exception" /\ \E z \in s.v : z[2]
            \/ x = "" /\ \E z \in s.v :
                /\ ~z[2]
                /\ v.mode = z[1].mode
                /\ Rows(v.pl, DOMAIN z[1].pl, LAMBDA r : r[2] \in s.m[r[1]] /\ r = PlRowX(z[1], r[1], r[2]))
                /\ Rows(v.tr, DOMAIN z[1].tr, LAMBDA r : r = TrRowX(z[1], r[1]))

(***************************************************************************)
(* Returns                                                                 *)
(***************************************************************************)
XOk(expected, x) == IF expected = "*" THEN x # "" ELSE x = expected

\* A change the net is not told about: it may be noticed only after the sleep duration.
Dirty(t) == [t EXCEPT !.dirty = TRUE, !.n = @ + 1]

RetOther(th, x) ==
  LET c == calls[th] IN
  /\ c.op \notin ReadOps /\ c.op # "exec"
  /\ c.lin /\ XOk(c.x, x)
  /\ th \notin DOMAIN sync                              \* its synchronous action has run
  /\ c.op = "del" => \A j \in DOMAIN jobs : jobs[j].src # "q"
  /\ tm' = IF c.op = "inc" /\ x = "" THEN (IF c.n = tm.n /\ ~tm.ended THEN [tm EXCEPT !.dirty = FALSE] ELSE tm)
           ELSE IF c.op \in {"inc", "place", "trans"} THEN Dirty(tm)
           ELSE tm
  /\ UNCHANGED <<run, ctl>>

\* execute() in SINGLE_THREAD mode is over: nothing can fire, or a callback threw
Over(th) ==
  /\ run.st = "single" /\ run.th = th /\ Net \notin DOMAIN sync
  /\ \/ ctl.err # ""
     \/ /\ ctl = Idle
        /\ \/ calls[th].n # tm.n                               \* something changed concurrently
           \* the end of an action may not have been noticed yet
           \/ \A t \in Fireable \cup Throwing : eng.tr[t].rna /\ tm.ended
  /\ run.log => run.logged
EndSingle(th) ==
  /\ \E o \in DOMAIN calls : o # th /\ ~calls[o].lin          \* only matters to other calls
  /\ Over(th)
  /\ run' = NoRun /\ ctl' = Idle
  /\ Done(th, ctl.err)
  /\ UNCHANGED <<eng, sync, q, bag, jobs, role, ever, cseen, cv, tm>>

RetExec(th, x) ==
  LET c == calls[th] IN
  /\ c.op = "exec" /\ c.lin
  /\ IF run.st = "single" /\ run.th = th
     THEN Over(th) /\ x = ctl.err /\ run' = NoRun /\ ctl' = Idle
     ELSE XOk(c.x, x) /\ UNCHANGED <<run, ctl>>
  /\ UNCHANGED tm

Ret(th, x, v) ==
  /\ th \in DOMAIN calls
  /\ \/ RetOther(th, x)
     \/ RetExec(th, x)
     \/ calls[th].op \in ReadOps /\ ReadOk(th, x, v) /\ UNCHANGED <<run, ctl, tm>>
  /\ calls' = Drop(calls, {th})
  /\ UNCHANGED <<eng, sync, q, bag, jobs, role, ever, cseen, cv>>

(***************************************************************************)
(* Callbacks                                                               *)
(***************************************************************************)
IsClient(th) == th < 100
\* th can be the thread that executes the net
NetThread(th) == IF run.th = -1 THEN ~IsClient(th) /\ th \notin DOMAIN role ELSE th = run.th
BindNet(th) == /\ run' = [run EXCEPT !.th = th]
               /\ role' = IF IsClient(th) THEN role ELSE With(role, th, "net")

\* a condition that takes its time: until it returns the net makes no other move and does not stop
CondBegin(th, f) ==
  /\ NetOn /\ NetIdle /\ NetThread(th)
  /\ \E t \in DOMAIN eng.tr : f \in Range(eng.tr[t].cf)
  /\ BindNet(th)
  /\ ctl' = [ctl EXCEPT !.cin = f]
  /\ UNCHANGED <<eng, sync, q, bag, jobs, calls, ever, cseen, cv, tm>>

CondEval(th, f, v, x) ==
  /\ NetOn /\ NetThread(th)
  /\ NetIdle \/ (ctl = [Idle EXCEPT !.cin = f] /\ Net \notin DOMAIN sync)
  /\ \E t \in DOMAIN eng.tr : f \in Range(eng.tr[t].cf)
  /\ BindNet(th)
  /\ IF x THEN /\ run.st = "single"
               /\ ctl' = [Idle EXCEPT !.err = "User:" \o f]
               /\ UNCHANGED cseen
     ELSE /\ cseen' = IF v THEN cseen \cup {f} ELSE cseen \ {f}
          /\ ctl' = Idle
  /\ UNCHANGED <<eng, sync, q, bag, jobs, calls, ever, cv, tm>>

BeginSyncNet(th, f) ==
  /\ Net \in DOMAIN sync /\ sync[Net].st = "pend" /\ sync[Net].f = f /\ NetThread(th)
  /\ sync' = [sync EXCEPT ![Net].st = "run"]
  /\ BindNet(th)
  /\ UNCHANGED <<q, bag, jobs>>
BeginSyncCaller(th, f) ==
  /\ th \in DOMAIN sync /\ sync[th].st = "pend" /\ sync[th].f = f
  /\ sync' = [sync EXCEPT ![th].st = "run"]
  /\ UNCHANGED <<q, bag, jobs, run, role>>
BeginJob(th, f) ==
  /\ q # <<>> /\ Head(q).f = f
  /\ \A j \in DOMAIN jobs : jobs[j].src # "q"           \* one at a time
  /\ ~IsClient(th) /\ (IF th \in DOMAIN role THEN role[th] = "job" ELSE TRUE) /\ th \notin DOMAIN jobs
  /\ jobs' = With(jobs, th, [src |-> "q", k |-> Head(q).k, id |-> Head(q).id, f |-> f])
  /\ role' = With(role, th, "job")
  /\ q' = Tail(q)
  /\ UNCHANGED <<sync, bag, run>>
BeginDetached(th, f) ==
  /\ ~IsClient(th) /\ th \notin DOMAIN role             \* a thread of its own
  /\ \E a \in DOMAIN bag :
       /\ a.f = f
       /\ jobs' = With(jobs, th, [src |-> "d", k |-> a.k, id |-> a.id, f |-> f])
       /\ bag' = IF bag[a] = 1 THEN Drop(bag, {a}) ELSE [bag EXCEPT ![a] = @ - 1]
  /\ role' = With(role, th, "det")
  /\ UNCHANGED <<sync, q, run>>

ActBegin(th, f) ==
  /\ BeginSyncNet(th, f) \/ BeginSyncCaller(th, f) \/ BeginJob(th, f) \/ BeginDetached(th, f)
  /\ UNCHANGED <<eng, ctl, calls, ever, cseen, cv, tm>>

ActEnd(th, f, x) ==
  \/ /\ Net \in DOMAIN sync /\ sync[Net].st = "run" /\ sync[Net].f = f /\ run.th = th
     /\ sync' = Drop(sync, {Net})
     /\ IF x THEN run.st = "single" /\ ctl' = [Idle EXCEPT !.err = "User:" \o f] ELSE UNCHANGED ctl
     /\ UNCHANGED <<eng, run, q, bag, jobs, role, calls, ever, cseen, cv, tm>>
  \/ /\ th \in DOMAIN sync /\ sync[th].st = "run" /\ sync[th].f = f
     /\ sync' = Drop(sync, {th})
     /\ calls' = IF x THEN [calls EXCEPT ![th].x = "User:" \o f] ELSE calls
     /\ UNCHANGED <<eng, run, ctl, q, bag, jobs, role, ever, cseen, cv, tm>>
  \/ /\ th \in DOMAIN jobs /\ jobs[th].f = f /\ ~x
     /\ jobs' = Drop(jobs, {th})
     \* the engine notices the end of an action some time after the action returned
     /\ tm' = IF HasRna THEN [Dirty(tm) EXCEPT !.ended = TRUE] ELSE tm
     /\ UNCHANGED <<eng, run, ctl, sync, q, bag, role, calls, ever, cseen, cv>>

\* a state of the net written to the stream of the log; rows <<place, tokens>>
Log(th, st, rows) ==
  /\ NetOn /\ run.log /\ run.stream = st /\ NetIdle /\ NetThread(th)
  /\ run' = [run EXCEPT !.th = th, !.logged = TRUE]
  /\ role' = IF IsClient(th) THEN role ELSE With(role, th, "net")
  /\ \E d \in lseen.d : Rows(rows, d, LAMBDA r : r[2] \in lseen.m[r[1]])
  /\ UNCHANGED <<eng, ctl, sync, q, bag, jobs, calls, ever, cseen, cv, tm>>

(***************************************************************************)
(* Environment                                                             *)
(***************************************************************************)
SetCond(th, f, v) ==
  /\ cv' = With(cv, f, v)
  /\ tm' = IF run.th = th /\ NetOn THEN tm ELSE Dirty(tm)
  /\ UNCHANGED <<eng, run, ctl, sync, q, bag, jobs, role, calls, ever, cseen>>

InFlight(ops) == \E th \in DOMAIN calls : calls[th].op \in ops

\* No thread can run, so time passes.  What must not be waited for:
TickOk(now2) ==
  \/ DOMAIN sync # {}                       \* a synchronous action holds the net and the calls
  \/ /\ ctl.cin # ""                       \* so may a condition, but not the actions of the other threads
     /\ q # <<>> => (q = tm.stuck \/ \E j \in DOMAIN jobs : jobs[j].src = "q")
     /\ bag = Empty
  \/ /\ run.st # "single"                   \* the net itself never waits
     /\ \/ ~InFlight(ReadOps \cup EditOps \cup {"inc", "exec", "stop", "new", "import", "exportbad"})
        \/ HasRna /\ InFlight({"inc"})       \* an arrival may wait a while for an evaluation to end
     /\ run.st = "loop" /\ ~InFlight({"inc", "stop", "del", "import"}) =>
          /\ ctl = Idle
          /\ Fireable # {} => tm.dirty
          /\ \A t \in Fireable : now2 <= Max(since[t] + eng.slp, tm.old)
     /\ q # <<>> => (q = tm.stuck \/ \E j \in DOMAIN jobs : jobs[j].src = "q")
     /\ bag = Empty

\* the system refuses the thread a call in progress needs: execute() and an arrival that would run its action on a
\* thread of its own fail (the token may have arrived); a job waits until the next one is queued
NoThread(th) ==
  /\ th \in DOMAIN calls
  /\ LET c == calls[th] IN
     \/ /\ c.op = "exec" /\ ~c.lin /\ run.st = "off" /\ eng.mode # "SINGLE_THREAD"
        /\ Done(th, "*")
        /\ UNCHANGED <<eng, ever, tm>>
     \/ /\ c.op = "inc" /\ ~c.lin /\ eng.mode = "DETACHED"
        /\ Errs("inc", c.a, eng, OnRun) = {} /\ HasAction(eng, c.a.p, "e")
        /\ Done(th, "*")
        /\ \/ eng' = eng
           \/ eng' = [eng EXCEPT !.m[c.a.p] = NAdd(@, NOne)]
        /\ ever' = IF NetOn THEN ever \cup EnabledSet(eng') ELSE ever
        /\ tm' = Dirty(tm)
     \/ /\ c.op = "inc" /\ c.lin /\ c.x = "" /\ eng.mode = "JOB_QUEUE" /\ q # <<>>
        /\ tm' = [tm EXCEPT !.stuck = q]
        /\ UNCHANGED <<calls, eng, ever>>
  /\ UNCHANGED <<run, ctl, sync, q, bag, jobs, role, cseen, cv>>

Tick(now2, forced) ==
  /\ forced \/ TickOk(now2)
  /\ tm' = IF forced THEN Dirty([tm EXCEPT !.now = now2, !.forced = TRUE])
           ELSE IF ctl.cin # "" THEN [tm EXCEPT !.now = now2, !.forced = TRUE, !.dirty = TRUE]
           ELSE [tm EXCEPT !.now = now2, !.forced = FALSE, !.ended = FALSE]
  /\ UNCHANGED <<eng, run, ctl, sync, q, bag, jobs, role, calls, ever, cseen, cv>>

\* every other thread has ended, or (left) waits for ever, which only those of a living engine may;
\* held: functions of which there are copies (the engine lets go of those it cannot call any more)
Referenced ==
  {eng.pl[p].en : p \in DOMAIN eng.pl} \cup {eng.pl[p].ex : p \in DOMAIN eng.pl}
  \cup UNION {Range(eng.tr[t].cf) : t \in DOMAIN eng.tr} \cup Range(eng.ra) \cup Range(eng.rc)
Drained(left, held) ==
  /\ q = <<>> /\ bag = Empty /\ jobs = Empty /\ sync = Empty
  /\ left => eng.alive
  /\ held \subseteq Referenced \ {""}
  /\ UNCHANGED <<eng, run, ctl, sync, q, bag, jobs, role, calls, ever, cseen, cv, tm>>

Internal ==
  \/ ((\E t \in DOMAIN eng.tr : Fire(t)) \/ Move) /\ SeenUpdate(ctl'.mv = <<>>)
  \/ (\E th \in DOMAIN calls : Lin(th) \/ EndSingle(th)) /\ SeenUpdate(FALSE)
  \/ (\E t \in DOMAIN eng.tr : NullCond(t)) /\ SeenUpdate(FALSE)

Init(conds) ==
  /\ eng = DeadEngine /\ run = NoRun /\ ctl = Idle /\ sync = Empty
  /\ q = <<>> /\ bag = Empty /\ jobs = Empty /\ role = Empty
  /\ calls = Empty /\ seen = Empty /\ ever = {} /\ cseen = {} /\ lseen = Empty /\ since = Empty
  /\ cv = conds
  /\ tm = [now |-> 0, forced |-> FALSE, dirty |-> FALSE, old |-> -1, n |-> 0, ended |-> FALSE,
            stuck |-> <<>>]
=============================================================================
