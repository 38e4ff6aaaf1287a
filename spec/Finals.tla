------------------------------- MODULE Finals -------------------------------
(***************************************************************************)
(* The final markings the firing rule allows: explores every order in      *)
(* which the transitions of a net can fire and prints the markings in      *)
(* which none can.  The file TRACES holds one JSON object per line,        *)
(* {tid, conds, ops}: the API calls that build and change the net.         *)
(***************************************************************************)
EXTENDS PTNEngine, Json, IOUtils

Nets == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
fvars == <<vars, tid, i>>

FInit ==
  /\ tid \in DOMAIN Nets
  /\ i = 1
  /\ LET c == Nets[tid].conds
     IN Init([f \in {c[k][1] : k \in DOMAIN c} |-> \E k \in DOMAIN c : c[k][1] = f /\ c[k][2]])

FAdd(a, b) == a + b
FSub(a, b) == a - b
FLe(a, b) == a <= b
FFits(a, b) == TRUE

Others == UNCHANGED <<run, ctl, sync, q, bag, jobs, role, calls, seen, ever, cseen, lseen, cv, since, tm, tid>>
Ops == Nets[tid].ops
FireAll(t) == eng' = [eng EXCEPT !.m = AfterMoves(@, MovesOf(t), Len(MovesOf(t)))]
Step ==
  IF i <= Len(Ops) /\ Ops[i].op # "exec"
  THEN /\ eng' = IF Ops[i].op = "inc" THEN [eng EXCEPT !.m[Ops[i].a.p] = NAdd(@, NOne)]
                 ELSE Eff(Ops[i].op, Ops[i].a, eng)
       /\ i' = i + 1 /\ Others
  ELSE \/ \E t \in Fireable : FireAll(t) /\ Others /\ UNCHANGED i
       \/ Fireable = {} /\ i <= Len(Ops) /\ i' = i + 1 /\ UNCHANGED eng /\ Others

FSpec == FInit /\ [][Step]_fvars
Final == i > Len(Ops) /\ Fireable = {} => PrintT(<<"FINAL", Nets[tid].tid, ToJson([p \in DOMAIN eng.m |-> eng.m[p]])>>)
=============================================================================
