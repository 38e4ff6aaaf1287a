------------------------------ MODULE MCEngine ------------------------------
(***************************************************************************)
(* PTNEngine explored exhaustively: every interleaving of the client       *)
(* threads of a small program with the net, its actions, the conditions    *)
(* and the passing of time.  The file MC holds one JSON object per line,   *)
(* {tid, conds, throws, flips, ops, progs, ticks, faults}: condition       *)
(* functions with their initial values, functions that may throw, how      *)
(* often the user may change a condition, the calls that build the net,    *)
(* one sequence of calls per client thread, how often time may pass while  *)
(* work is left, how often the system may refuse a thread.                 *)
(*                                                                         *)
(* What the actions of PTNEngine allow is judged here against independent  *)
(* statements of the properties, by means of a history h of what happened. *)
(***************************************************************************)
EXTENDS PTNEngine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.MC)

VARIABLES tid, pc, h, env
mvars == <<vars, tid, pc, h, env>>

IntAdd(a, b) == a + b
IntSub(a, b) == a - b
IntLe(a, b) == a <= b
IntFits(a, b) == TRUE
Zero == 0
One == 1

Case == Cases[tid]
Progs == Case.progs
Clients == DOMAIN Progs
CondFns == {Case.conds[i][1] : i \in DOMAIN Case.conds}
Throws == Range(Case.throws)
NetTh == 100
JobTh == 101

RECURSIVE Build(_, _)
Build(e, ops) == IF ops = <<>> THEN e ELSE Build(Eff(ops[1].op, ops[1].a, e), Tail(ops))

Count(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Bump(f, x) == With(f, x, Count(f, x) + 1)

MCInit ==
  /\ tid \in DOMAIN Cases
  /\ LET c == Case.conds
         e0 == Build(DeadEngine, Case.ops)
     IN /\ cv = [f \in CondFns |-> \E i \in DOMAIN c : c[i][1] = f /\ c[i][2]]
        /\ eng = e0
        /\ h = [m0 |-> e0.m,        \* marking the history starts from
                fired |-> Empty,    \* firings per transition, of the net the history is about
                inc |-> Empty,      \* successful increments per place
                trig |-> <<>>,      \* actions triggered, in order (JOB_QUEUE)
                exp |-> Empty,      \* per function: how often it had to run
                beg |-> Empty,      \* per function: how often it ran
                drop |-> Empty,     \* per function: dropped with the engine
                last |-> "",        \* what happened last
                net |-> e0.tr]
  /\ run = NoRun /\ ctl = Idle /\ sync = Empty
  /\ q = <<>> /\ bag = Empty /\ jobs = Empty /\ role = Empty
  /\ calls = Empty /\ seen = Empty /\ ever = {} /\ cseen = {} /\ lseen = Empty /\ since = Empty
  /\ tm = [now |-> 0, forced |-> FALSE, dirty |-> FALSE, old |-> -1, n |-> 0, ended |-> FALSE,
            stuck |-> <<>>]
  /\ pc = [c \in Clients |-> 1]
  /\ env = [flips |-> Case.flips, ticks |-> Case.ticks, det |-> 0, faults |-> Case.faults]

(***************************************************************************)
(* History                                                                 *)
(***************************************************************************)
\* function of the action an arrival or departure must run
FnOf(p, k) == IF k = "e" THEN eng.pl[p].en ELSE eng.pl[p].ex
Expect(hh, p, k) ==
  IF FnOf(p, k) = "" THEN hh
  ELSE [hh EXCEPT !.exp = Bump(@, FnOf(p, k)),
                  !.trig = IF eng.mode = "JOB_QUEUE" THEN Append(@, FnOf(p, k)) ELSE @]
MoveHist(mv) ==
  Expect(h, mv[2], mv[1])

\* a new net: the history starts again
Restart(e, hh) == [hh EXCEPT !.m0 = e.m, !.fired = Empty, !.inc = Empty, !.net = e.tr]

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
MCNetStep ==
  /\ \/ \E t \in DOMAIN eng.tr :
          /\ Fire(t)
          /\ h' = LET mv == MovesOf(t)
                      h1 == IF mv = <<>> THEN h ELSE MoveHist(mv[1])
                  IN [h1 EXCEPT !.fired = Bump(@, t), !.last = "fire"]
     \/ Move /\ h' = [MoveHist(ctl.mv[1]) EXCEPT !.last = "move"]
  /\ SeenUpdate(ctl'.mv = <<>>)
  /\ UNCHANGED <<pc, env>>

Dropped(d) == [f \in DOMAIN d \cup {q[i].f : i \in DOMAIN q} |->
                 Count(d, f) + Cardinality({i \in DOMAIN q : q[i].f = f})]
MCLin ==
  \E th \in DOMAIN calls :
    /\ Lin(th) \/ EndSingle(th)
    /\ SeenUpdate(FALSE)
    /\ LET c == calls[th]
           ok == calls'[th].x = ""
           h1 == IF c.op = "inc" /\ ok THEN [Expect(h, c.a.p, "e") EXCEPT !.inc = Bump(@, c.a.p)]
                 ELSE IF c.op = "del" THEN [h EXCEPT !.drop = Dropped(@), !.trig = SubSeq(@, 1, Len(@) - Len(q))]
                 ELSE h
           h2 == IF c.op \in {"place", "trans"}
                 THEN [h1 EXCEPT !.net = eng'.tr, !.m0 = @ @@ [p \in DOMAIN eng'.m \ DOMAIN eng.m |-> eng'.m[p]]]
                 ELSE IF eng'.tr # eng.tr \/ eng'.pl # eng.pl THEN Restart(eng', h1) ELSE h1
       IN h' = [h2 EXCEPT !.last = "lin"]
    /\ UNCHANGED <<pc, env>>

MCCall(th) ==
  /\ th \in Clients /\ th \notin DOMAIN calls /\ th \notin DOMAIN sync /\ pc[th] <= Len(Progs[th])
  /\ LET c == Progs[th][pc[th]] IN
     /\ c.op = "new" => ~eng.alive
     /\ c.op # "new" => eng.alive
     /\ c.op = "del" => DOMAIN calls = {}     \* nobody else may be using the engine
     /\ c.op # "del" => \A o \in DOMAIN calls : calls[o].op # "del"
     /\ Call(th, c.op, c.a)
  /\ pc' = [pc EXCEPT ![th] = @ + 1]
  /\ SeenUpdate(FALSE)
  /\ h' = [h EXCEPT !.last = "call"] /\ UNCHANGED env

Errors == {"", "PTN_Exception", "RepeatedPlaceException", "InvalidFunctionNameException", "InvalidNameException",
           "NotInputPlaceException", "ActivationPlaceRepetitionException", "DestinationPlaceRepetitionException",
           "InhibitorPlaceRepetitionException", "ZeroValueWeightException", "RepeatedFunctionException",
           "std::system_error"}
           \cup {"User:" \o f : f \in Throws}
Values(th) ==
  CASE calls[th].op = "tok" -> UNION {Range(s) : s \in seen[th].v} \cup {0}
    [] calls[th].op \in {"running", "getmode", "getsleep"} -> seen[th].v
    [] calls[th].op = "print" -> {<<>>}
    [] OTHER -> {0}
MCRet(th) ==
  /\ th \in DOMAIN calls
  /\ \E x \in Errors : \E v \in Values(th) : Ret(th, x, v) /\ h' = [h EXCEPT !.last = "ret"]
  /\ SeenUpdate(FALSE)
  /\ UNCHANGED <<pc, env>>

\* the system refuses a thread to a call
MCNoThread ==
  /\ env.faults > 0
  /\ \E th \in Clients :
       /\ NoThread(th)
       /\ h' = [h EXCEPT !.inc = IF eng'.m # eng.m THEN Bump(@, calls[th].a.p) ELSE @, !.last = "nothread"]
  /\ env' = [env EXCEPT !.faults = @ - 1]
  /\ SeenUpdate(FALSE)
  /\ UNCHANGED pc

NetThreads == IF run.st = "single" THEN {run.th} ELSE {NetTh}
MCCond ==
  /\ \E th \in NetThreads : \E f \in CondFns : \E x \in {FALSE} \cup (IF f \in Throws THEN {TRUE} ELSE {}) :
       /\ x \/ ctl.cin # "" \/ cv[f] # (f \in cseen)        \* otherwise nothing changes
       /\ \/ CondEval(th, f, cv[f], x)
          \/ CondBegin(th, f) /\ cv[f] # (f \in cseen)
  /\ SeenUpdate(FALSE)
  /\ h' = [h EXCEPT !.last = "cond"] /\ UNCHANGED <<pc, env>>

Pending == {sync[th].f : th \in DOMAIN sync} \cup {q[i].f : i \in DOMAIN q} \cup {a.f : a \in DOMAIN bag}
MCActBegin ==
  \E f \in Pending :
    \E th \in NetThreads \cup Clients \cup {JobTh, 102 + env.det} :
      /\ th = NetTh => Net \in DOMAIN sync
      /\ th = JobTh => q # <<>>
      /\ th = 102 + env.det => bag # Empty
      /\ ActBegin(th, f)
      /\ h' = [h EXCEPT !.beg = Bump(@, f), !.last = "actb"]
      /\ env' = IF th = 102 + env.det THEN [env EXCEPT !.det = @ + 1] ELSE env
      /\ SeenUpdate(FALSE)
      /\ UNCHANGED pc

MCActEnd ==
  /\ \E th \in DOMAIN jobs \cup DOMAIN sync \cup NetThreads :
       \E f \in {jobs[j].f : j \in DOMAIN jobs} \cup {sync[s].f : s \in DOMAIN sync} :
         \E x \in {FALSE} \cup (IF f \in Throws THEN {TRUE} ELSE {}) :
           /\ ActEnd(th, f, x)
           /\ h' = IF ctl'.err # "" /\ ctl.err = "" THEN [Restart(eng, h) EXCEPT !.last = "throw"]   \* rest of the firing lost
                   ELSE [h EXCEPT !.last = "acte"]
  /\ SeenUpdate(FALSE)
  /\ UNCHANGED <<pc, env>>

MCSetCond ==
  /\ eng.alive
  /\ env.flips > 0
  /\ \E f \in CondFns : SetCond(0, f, ~cv[f])
  /\ env' = [env EXCEPT !.flips = @ - 1]
  /\ SeenUpdate(FALSE)
  /\ h' = [h EXCEPT !.last = "setc"] /\ UNCHANGED pc

\* Time passes only when every thread is blocked: nothing is left that must not be waited for
MCTick ==
  /\ env.ticks > 0
  /\ run.st = "loop"
  /\ \E d \in {60, 100} : Tick(tm.now + d, FALSE)
  /\ env' = [env EXCEPT !.ticks = @ - 1]
  /\ SeenUpdate(FALSE)
  /\ h' = [h EXCEPT !.last = "tick"] /\ UNCHANGED pc

Finished == /\ calls = Empty /\ (~eng.alive \/ \A c \in Clients : pc[c] > Len(Progs[c]))
            /\ sync = Empty /\ q = <<>> /\ bag = Empty /\ jobs = Empty

Progress == MCNetStep \/ MCLin \/ (\E th \in Clients : MCRet(th) \/ MCCall(th)) \/ MCCond \/ MCActBegin \/ MCActEnd
MCNext == (Progress \/ MCSetCond \/ MCTick \/ MCNoThread \/ (Finished /\ UNCHANGED <<vars, pc, h, env>>)) /\ tid' = tid

MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(Progress /\ tid' = tid)

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
\* C02: the marking is the initial one plus the effect of the firings and the increments
Effect(p) ==
  LET ts == DOMAIN h.fired
      SumArcs(arcs) == IF \E i \in DOMAIN arcs : arcs[i][1] = p
                       THEN arcs[CHOOSE i \in DOMAIN arcs : arcs[i][1] = p][2] ELSE 0
      RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN 0
                ELSE LET t == CHOOSE t \in S : TRUE
                     IN h.fired[t] * (SumArcs(h.net[t].dst) - SumArcs(h.net[t].act)) + Sum(S \ {t})
      \* the moves of the last firing that were not made (yet, or because an action threw)
      RECURSIVE Left(_)
      Left(mv) == IF mv = <<>> THEN 0
                  ELSE (IF mv[1][2] = p THEN (IF mv[1][1] = "e" THEN mv[1][3] ELSE 0 - mv[1][3]) ELSE 0) + Left(Tail(mv))
  IN Sum(ts) + Count(h.inc, p) - Left(ctl.mv)
Conservation == \A p \in DOMAIN eng.m : eng.m[p] = h.m0[p] + Effect(p)
NonNegative == \A p \in DOMAIN eng.m : eng.m[p] >= 0

\* C05, C07, C08: every trigger leads to exactly one run
PendingOf(f) == Cardinality({i \in DOMAIN q : q[i].f = f})
                + Cardinality({s \in DOMAIN sync : sync[s].f = f /\ sync[s].st = "pend"})
                + (LET S == {a \in DOMAIN bag : a.f = f}
                       RECURSIVE Sum(_)
                       Sum(T) == IF T = {} THEN 0 ELSE LET a == CHOOSE a \in T : TRUE IN bag[a] + Sum(T \ {a})
                   IN Sum(S))
ExactlyOnce == \A f \in DOMAIN h.exp \cup DOMAIN h.beg :
                 Count(h.exp, f) = Count(h.beg, f) + PendingOf(f) + Count(h.drop, f)
\* C07: the queue is what is left of the triggers, in order; one job at a time
Fifo == /\ Len(q) <= Len(h.trig)
        /\ [i \in DOMAIN q |-> q[i].f] = SubSeq(h.trig, Len(h.trig) - Len(q) + 1, Len(h.trig))
        /\ Cardinality({j \in DOMAIN jobs : jobs[j].src = "q"}) <= 1
\* C06: in synchronous modes nothing moves while an action runs; the net and the actions it runs share a thread
SyncHolds == Net \in DOMAIN sync /\ sync[Net].st = "run" => run.st # "off"
\* C10, C23: no action pending or running means no place is busy
NoGhosts == (sync = Empty /\ q = <<>> /\ bag = Empty /\ jobs = Empty) =>
              \A p \in DOMAIN eng.pl : ~EnterBusy(eng.pl[p].id)
\* C13, C29: a net that is off has no firing in progress; a destroyed engine does nothing
OffIsOff == run.st = "off" => (ctl = Idle /\ Net \notin DOMAIN sync)
DeadIsDead == ~eng.alive => (run.st = "off" /\ q = <<>> /\ (DOMAIN calls = {} => \A j \in DOMAIN jobs : jobs[j].src # "q"))
\* C14: what isEventLoopRunning may answer
TypeOK == /\ eng.mode \in AsyncModes \cup SyncModes
          /\ run.st \in {"off", "single", "loop"}
          /\ run.st = "single" => run.th \in Clients
          /\ DOMAIN eng.m = DOMAIN eng.pl
          /\ DOMAIN seen = {th \in DOMAIN calls : calls[th].op \in ReadOps}

(***************************************************************************)
(* Step properties                                                         *)
(***************************************************************************)
Pre(t, m) == /\ \A i \in DOMAIN eng.tr[t].act : m[eng.tr[t].act[i][1]] >= eng.tr[t].act[i][2]
\* C01: tokens are there when a firing starts (they may have come later than the inhibitors were seen empty)
FiresWithTokens == [][\A t \in DOMAIN eng.tr :
                        (Count(h'.fired, t) > Count(h.fired, t) /\ h'.last = "fire") => Pre(t, eng.m)]_mvars
\* C01: conditions of the transition that fires were true after the previous firing
FiresWithConds == [][(h'.last = "fire") =>
                       \E t \in DOMAIN eng.tr : /\ Count(h'.fired, t) > Count(h.fired, t)
                                                /\ Range(eng.tr[t].cf) \subseteq cseen]_mvars
\* C09: and no on-enter action of its places is pending or running
FiresWhenAllowed == [][(h'.last = "fire") =>
                         \E t \in DOMAIN eng.tr : /\ Count(h'.fired, t) > Count(h.fired, t)
                                                  /\ eng.tr[t].rna => \A p \in ActPlaces(eng, t) :
                                                       /\ \A j \in DOMAIN jobs : ~(jobs[j].k = "e" /\ jobs[j].id = eng.pl[p].id)
                                                       /\ \A i \in DOMAIN q : ~(q[i].k = "e" /\ q[i].id = eng.pl[p].id)]_mvars
\* C02: nothing but moves and increments changes a number of tokens
OnlyMovesAndIncs == [][(eng'.m # eng.m) => (h'.last \in {"fire", "move", "lin", "nothread"})]_mvars
\* C13: a net that is off neither fires nor evaluates
OffDoesNothing == [][run.st = "off" => h'.last \notin {"fire", "move", "cond"}]_mvars
\* C03: execute() in SINGLE_THREAD ends when nothing can fire (alone: no other thread interferes)
EndsQuiet == [][(run.st = "single" /\ run'.st = "off" /\ Cardinality(Clients) = 1 /\ ctl.err = "" /\ Case.flips = 0)
                  => Fireable = {}]_mvars
\* C11: time passes only when no enabled transition was announced to the engine
QuietTick == [][(/\ h'.last = "tick" /\ run.st = "loop" /\ ctl.cin = "" /\ ~tm.dirty /\ sync = Empty
                /\ ~\E th \in DOMAIN calls : calls[th].op \in {"inc", "stop", "del", "import"}) => Fireable = {}]_mvars
\* while a condition is evaluated the net does not move
SlowCondHolds == [][ctl.cin # "" => h'.last \notin {"fire", "move"}]_mvars
\* C14: the running state changes by execute, stop, import and destruction only
RunChange == [][(run'.st # run.st) => h'.last \in {"lin", "ret"}]_mvars
\* C18, C19, C27: a call that fails changes nothing
FailsClean == [][(h'.last = "lin" /\ \E th \in DOMAIN calls : ~calls[th].lin /\ calls'[th].lin
                     /\ calls'[th].x \notin {"", "*"} /\ calls[th].op # "exec") => eng' = eng /\ run' = run]_mvars

\* C33: a refused thread leaves no more behind than a token that arrived: nothing runs, no place is busy
RefusedClean == [][(h'.last = "nothread") =>
                     /\ run' = run /\ q' = q /\ bag' = bag /\ jobs' = jobs /\ sync' = sync
                     /\ [eng' EXCEPT !.m = eng.m] = eng]_mvars

(***************************************************************************)
(* Liveness (C10, C11, C15): with fair threads every call returns, every   *)
(* action runs, and the net does not stay able to fire.                    *)
(***************************************************************************)
CallsReturn == \A th \in 1 .. 2 : (th \in DOMAIN calls) ~> (th \notin DOMAIN calls)
ActionsRun == (q # <<>> \/ bag # Empty \/ sync # Empty) ~> (q = <<>> /\ bag = Empty /\ sync = Empty)

(***************************************************************************)
(* C24: the calls an export describes rebuild the net                      *)
(***************************************************************************)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
ArcOps(t, arcs, k) == [i \in DOMAIN arcs |-> [op |-> "addarc", a |-> [p |-> arcs[i][1], t |-> t, k |-> k, w |-> arcs[i][2]]]]
ExportOps(e) ==
  LET ps == SeqOf(DOMAIN e.pl)
      ts == SeqOf(DOMAIN e.tr)
      RECURSIVE Arcs(_)
      Arcs(i) == IF i > Len(ts) THEN <<>>
                 ELSE ArcOps(ts[i], e.tr[ts[i]].act, "A") \o ArcOps(ts[i], e.tr[ts[i]].dst, "D")
                      \o ArcOps(ts[i], e.tr[ts[i]].inh, "I") \o Arcs(i + 1)
  IN <<[op |-> "setmode", a |-> [mode |-> e.mode]]>>
     \o [i \in DOMAIN ps |-> [op |-> "place", a |-> [p |-> ps[i], tok |-> e.m[ps[i]], inp |-> e.pl[ps[i]].inp,
           enN |-> e.pl[ps[i]].enN, en |-> "", exN |-> e.pl[ps[i]].exN, ex |-> ""]]]
     \o [i \in DOMAIN ts |-> [op |-> "trans", a |-> [t |-> ts[i], act |-> <<>>, dst |-> <<>>, inh |-> <<>>,
           rna |-> e.tr[ts[i]].rna, cn |-> e.tr[ts[i]].cn, cf |-> <<>>]]]
     \o Arcs(1)
Named(e) == /\ \A p \in DOMAIN e.pl : (e.pl[p].en = "" \/ e.pl[p].enN # "") /\ (e.pl[p].ex = "" \/ e.pl[p].exN # "")
            /\ \A t \in DOMAIN e.tr : \A i \in DOMAIN e.tr[t].cn : e.tr[t].cn[i] # ""
SameNet(e, f) == /\ e.m = f.m /\ e.tr = f.tr /\ e.mode = f.mode
                 /\ DOMAIN e.pl = DOMAIN f.pl
                 /\ \A p \in DOMAIN e.pl : [e.pl[p] EXCEPT !.id = 0] = [f.pl[p] EXCEPT !.id = 0]
RoundTrip == (eng.alive /\ run.st = "off" /\ Named(eng)) =>
  LET ops == ExportOps(eng)
      e0 == [NewEngine("EVENT_LOOP") EXCEPT !.ra = eng.ra, !.rc = eng.rc]
  IN FirstBad(e0, ops) = Len(ops) + 1 /\ SameNet(AfterOps(e0, ops, Len(ops)), eng)

\* breadth first up to a number of states
Bound == TLCGet("distinct") < atoi(IOEnv.MCLIMIT)
=============================================================================
