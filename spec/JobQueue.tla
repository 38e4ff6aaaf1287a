------------------------------ MODULE JobQueue ------------------------------
(***************************************************************************)
(* The observable behaviour of class JobQueue: jobs run one at a time in   *)
(* the order in which they were added while the queue is active; it can    *)
(* be paused (deactivate waits for the job in progress) and resumed.       *)
(* Events: Call, Ret, JobBegin, JobEnd, Tick, Drained.  Internal steps:    *)
(* Lin (a call takes effect), Start (the worker takes the next job).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  alive,   \* the queue exists
  act,     \* it is active
  q,       \* jobs added and not started
  cur,     \* job in progress (none: <<>>), <<job, thread>>; thread -1: taken, not yet begun
  stuck,   \* jobs waiting since the system refused a thread, until the next call that needs one
  calls    \* thread |-> call in progress [op, f, lin, ok, seen]

vars == <<alive, act, q, cur, stuck, calls>>

Empty == <<>>
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
IsClient(th) == th < 100

\* conjoined to every step: what calls in progress observe
\* calls is the successor before observation, c1 after it
Observe(c0) ==
  calls' = [th \in DOMAIN c0 |->
    [c0[th] EXCEPT !.seen = @ \cup {act'},
                   !.ok = @ \/ (c0[th].lin /\ (cur' = <<>> \/ (act' /\ alive')))]]

Call(th, op, f) ==
  /\ th \notin DOMAIN calls
  /\ UNCHANGED <<alive, act, q, cur, stuck>>
  /\ Observe((th :> [op |-> op, f |-> f, lin |-> op = "jisact", ok |-> FALSE, seen |-> {}]) @@ calls)

Lin(th) ==
  LET c == calls[th] IN
  /\ ~c.lin
  /\ CASE c.op = "jnew" -> ~alive /\ alive' = TRUE /\ act' = TRUE /\ q' = <<>> /\ UNCHANGED cur
       [] c.op = "jadd" -> q' = Append(q, c.f) /\ UNCHANGED <<alive, act, cur>>
       [] c.op = "jact" -> act' = TRUE /\ UNCHANGED <<alive, q, cur>>
       [] c.op = "jdeact" -> act' = FALSE /\ UNCHANGED <<alive, q, cur>>
       [] c.op = "jdel" -> alive' = FALSE /\ q' = <<>> /\ UNCHANGED <<act, cur>>
  /\ stuck' = IF c.op \in {"jadd", "jact"} THEN <<>> ELSE stuck
  /\ Observe([calls EXCEPT ![th].lin = TRUE])

\* the system refuses the thread the queue needs to start a job
NoThread(th) ==
  /\ th \in DOMAIN calls /\ calls[th].lin /\ calls[th].op \in {"jadd", "jact"}
  /\ alive /\ act /\ q # <<>> /\ cur = <<>>
  /\ stuck' = q
  /\ UNCHANGED <<alive, act, q, cur>>
  /\ Observe(calls)

Start ==
  /\ alive /\ act /\ cur = <<>> /\ q # <<>>
  /\ cur' = <<Head(q), -1>> /\ q' = Tail(q)
  /\ stuck' = <<>>
  /\ UNCHANGED <<alive, act>>
  /\ Observe(calls)

JobBegin(th, f) ==
  /\ cur = <<f, -1>> /\ ~IsClient(th)
  /\ cur' = <<f, th>>
  /\ UNCHANGED <<alive, act, q, stuck>>
  /\ Observe(calls)

JobEnd(th, f) ==
  /\ cur = <<f, th>>
  /\ cur' = <<>>
  /\ UNCHANGED <<alive, act, q, stuck>>
  /\ Observe(calls)

Ret(th, v) ==
  /\ th \in DOMAIN calls /\ calls[th].lin
  /\ CASE calls[th].op = "jisact" -> v \in calls[th].seen
       [] calls[th].op \in {"jdeact", "jdel"} -> calls[th].ok
       [] OTHER -> TRUE
  /\ UNCHANGED <<alive, act, q, cur, stuck>>
  /\ Observe(Without(calls, th))

\* no thread can run: time passes only because a job takes time or the client waits
Tick ==
  /\ alive /\ act /\ q # stuck => cur # <<>>
  /\ cur # <<>> => cur[2] # -1
  \* only deactivation and destruction may wait, for the job in progress
  /\ \A th \in DOMAIN calls : /\ calls[th].op \in {"jdeact", "jdel"}
                              /\ ~calls[th].ok \/ (~act /\ cur # <<>>)
  /\ UNCHANGED vars

\* left: the thread of a living queue waits; held: jobs of which there are copies
Drained(left, held) ==
  /\ cur = <<>>
  /\ alive /\ act => q = stuck
  /\ left => alive
  /\ held \subseteq {q[i] : i \in DOMAIN q}
  /\ UNCHANGED vars

Internal == Start \/ (\E th \in DOMAIN calls : Lin(th))

Init == alive = FALSE /\ act = FALSE /\ q = <<>> /\ cur = <<>> /\ stuck = <<>> /\ calls = Empty
=============================================================================
