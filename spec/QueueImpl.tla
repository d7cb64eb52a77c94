----------------------------- MODULE QueueImpl ------------------------------
(* Design of the verification queue (queue::Manager): submitters send        *)
(* Schedule messages and wait on a oneshot channel, the manager thread       *)
(* handles one message at a time, keeps a FIFO per address and a ring of the *)
(* addresses with waiting jobs, and hands work to idle runner threads over   *)
(* their channels; a runner that is done sends Dispatch.  Dropping the       *)
(* Manager sends Stop and joins the manager thread, which stops and joins    *)
(* the runners.                                                              *)
(*                                                                           *)
(* gs is the set of observer states (QueueObs) consistent with what the      *)
(* outside saw; the design satisfies the properties iff gs never empties.    *)
EXTENDS QueueObs

CONSTANTS IPs, NJ,    \* addresses, number of jobs
          W, Cap,     \* workers, bound
          Ths,        \* submitters
          Drops,      \* may submitters vanish?
          Ends,       \* may the queue be dropped?
          Bug         \* "none", or a design mistake the check must notice

VARIABLES gs,
          job,        \* job -> [pc, ip, th]
          box,        \* messages to the manager thread
          q, ring,    \* its queues and the order of their turns
          busy,       \* runners it has given work to
          rch,        \* channel of each runner
          rpc,        \* what each runner does: Idle, the job it runs, Report, Dead
          mpc,        \* manager thread: "run", "join", "dead"
          dpc,        \* the drop: "no", "called", "done"
          calm        \* has the outside looked since the last step?
vars == <<gs, job, box, q, ring, busy, rch, rpc, mpc, dpc, calm>>

Jobs == 1..NJ
Runners == 1..W
Idle == 0
Report == -1
Dead == -2
StopMsg == 0
\* (with nothing enforced nobody looks)
Obs(e) == IF Enforce = {} THEN UNCHANGED gs ELSE gs' = UNION { Next(g, e) : g \in gs }
Bugs(b) == Bug = b

Init ==
  /\ gs = Next(G0, [e |-> "reset", cap |-> Cap, w |-> W])
  /\ job = [j \in Jobs |-> [pc |-> "new"]]
  /\ box = <<>> /\ q = Empty /\ ring = <<>> /\ busy = {}
  /\ rch = [r \in Runners |-> <<>>] /\ rpc = [r \in Runners |-> Idle]
  /\ mpc = "run" /\ dpc = "no" /\ calm = FALSE

-----------------------------------------------------------------------------
(* Submitters: a submitter may have several submissions under way *)

Send(j, ip, th) ==
  /\ dpc = "no" /\ job[j].pc = "new" /\ \A i \in Jobs : i < j => job[i].pc # "new"
  /\ job' = [job EXCEPT ![j] = [pc |-> "sent", ip |-> ip, th |-> th]]
  /\ box' = Append(box, [m |-> "sched", j |-> j])
  /\ Obs([e |-> "submit", id |-> j, ip |-> ip, th |-> th]) /\ calm' = FALSE
  /\ UNCHANGED <<q, ring, busy, rch, rpc, mpc, dpc>>

Return(j) ==
  /\ job[j].pc \in {"ok", "full"}
  /\ Obs([e |-> "ret", id |-> j, res |-> job[j].pc])
  /\ job' = [job EXCEPT ![j].pc = "returned"] /\ calm' = FALSE
  /\ UNCHANGED <<box, q, ring, busy, rch, rpc, mpc, dpc>>

Abandon(j) ==
  /\ Drops /\ job[j].pc \in {"sent", "ok", "full"}
  /\ Obs([e |-> "abandon", id |-> j])
  /\ job' = [job EXCEPT ![j].pc = "abandoned"] /\ calm' = FALSE
  /\ UNCHANGED <<box, q, ring, busy, rch, rpc, mpc, dpc>>

-----------------------------------------------------------------------------
(* The manager thread *)

\* queues, ring, busy flags and channels after giving runner r the next job
Give(s, r) ==
  IF (r \in s.busy /\ ~Bugs("nobusy")) \/ s.ring = <<>> THEN s
  ELSE LET ip  == Head(s.ring)
           own == s.q[ip]
           n   == IF Bugs("lifo") THEN Len(own) ELSE 1
       IN IF own = <<>>    \* (only with ringkeep: an empty queue gets its turn)
          THEN [s EXCEPT !.ring = Append(Tail(@), ip)]
          ELSE LET left == Drop(own, n)
                   keep == left # <<>> \/ Bugs("ringkeep")
                   s1   == [s EXCEPT !.rch[r] = Append(@, own[n]), !.busy = @ \cup {r}]
               IN IF ~keep THEN [s1 EXCEPT !.q = Without(@, ip), !.ring = Tail(@)]
                  ELSE [s1 EXCEPT !.q[ip] = left,
                                  !.ring = IF Bugs("noturn") THEN @ ELSE Append(Tail(@), ip)]

RECURSIVE GiveAll(_, _)
GiveAll(s, r) == IF r > W THEN s ELSE GiveAll(Give(s, r), r + 1)

Cur == [q |-> q, ring |-> ring, busy |-> busy, rch |-> rch]
Set(s) == q' = s.q /\ ring' = s.ring /\ busy' = s.busy /\ rch' = s.rch

ManagerStep ==
  /\ mpc = "run" /\ box # <<>> /\ calm' = FALSE
  /\ LET m == Head(box) IN
     /\ box' = Tail(box)
     /\ CASE m.m = "sched" ->
              LET ip   == job[m.j].ip
                  n    == Cardinality(DOMAIN q)
                  full == CASE Bugs("fullown") -> n = Cap /\ ip \notin DOMAIN q
                            [] Bugs("offbyone") -> n > Cap
                            [] OTHER -> n = Cap
                  s1   == IF ip \in DOMAIN q THEN [Cur EXCEPT !.q[ip] = Append(@, m.j)]
                          ELSE [Cur EXCEPT !.q = With(@, ip, <<m.j>>), !.ring = Append(@, ip)]
                  told == job[m.j].pc = "sent"
              IN /\ IF full THEN UNCHANGED <<q, ring, busy, rch>>
                    ELSE Set(GiveAll(s1, 1))
                 /\ job' = IF told THEN [job EXCEPT ![m.j].pc = IF full THEN "full" ELSE "ok"] ELSE job
                 /\ mpc' = IF Bugs("abandonpanic") /\ ~told THEN "dead" ELSE mpc
         [] m.m = "done" ->
              /\ Set(IF Bugs("busyleak") /\ ring = <<>> THEN Cur ELSE Give([Cur EXCEPT !.busy = @ \ {m.r}], m.r))
              /\ UNCHANGED <<job, mpc>>
         [] m.m = "stop" ->
              /\ rch' = [r \in Runners |->
                           IF Bugs("nostop") /\ r \notin busy THEN rch[r]
                           ELSE LET all == IF Bugs("drain") /\ r = 1 /\ q # Empty THEN q[CHOOSE ip \in DOMAIN q : TRUE] ELSE <<>>
                                IN rch[r] \o all \o <<StopMsg>>]
              /\ mpc' = "join" /\ UNCHANGED <<job, q, ring, busy>>
  /\ UNCHANGED <<gs, rpc, dpc>>

ManagerJoin ==
  /\ mpc = "join" /\ (\A r \in Runners : rpc[r] = Dead) /\ mpc' = "dead" /\ calm' = FALSE
  /\ UNCHANGED <<gs, job, box, q, ring, busy, rch, rpc, dpc>>

-----------------------------------------------------------------------------
(* Runner threads *)

RunnerRecv(r) ==
  /\ rpc[r] = Idle /\ rch[r] # <<>> /\ calm' = FALSE
  /\ rch' = [rch EXCEPT ![r] = Tail(@)]
  /\ LET x == Head(rch[r]) IN
     IF x = StopMsg THEN rpc' = [rpc EXCEPT ![r] = Dead] /\ UNCHANGED gs
     ELSE rpc' = [rpc EXCEPT ![r] = x] /\ Obs([e |-> "start", id |-> x])
  /\ UNCHANGED <<job, box, q, ring, busy, mpc, dpc>>

RunnerDone(r) ==
  /\ rpc[r] \in Jobs /\ calm' = FALSE
  /\ Obs([e |-> "finish", id |-> rpc[r]])
  /\ rpc' = [rpc EXCEPT ![r] = Report]
  /\ UNCHANGED <<job, box, q, ring, busy, rch, mpc, dpc>>

RunnerReport(r) ==
  /\ rpc[r] = Report /\ calm' = FALSE
  /\ rpc' = [rpc EXCEPT ![r] = Idle]
  /\ box' = Append(box, [m |-> "done", r |-> r])
  /\ UNCHANGED <<gs, job, q, ring, busy, rch, mpc, dpc>>

-----------------------------------------------------------------------------
(* The end, and looking at the queue at rest *)

DropCalled ==
  /\ Ends /\ dpc = "no" /\ \A j \in Jobs : job[j].pc \notin {"sent", "ok", "full"}
  /\ dpc' = "called" /\ box' = Append(box, [m |-> "stop"])
  /\ Obs([e |-> "dropc"]) /\ calm' = FALSE
  /\ UNCHANGED <<job, q, ring, busy, rch, rpc, mpc>>

DropReturns ==
  /\ dpc = "called" /\ mpc = "dead" /\ dpc' = "done" /\ calm' = FALSE
  /\ Obs([e |-> "dropr", panic |-> FALSE])
  /\ UNCHANGED <<job, box, q, ring, busy, rch, rpc, mpc>>

\* only the jobs are left to do something
Quiet ==
  /\ (mpc = "run" => box = <<>>) /\ ~ENABLED ManagerJoin /\ ~ENABLED DropReturns
  /\ \A r \in Runners : rpc[r] # Report /\ (rpc[r] = Idle => rch[r] = <<>>)
  /\ \A j \in Jobs : job[j].pc \notin {"ok", "full"}

Look ==
  /\ ~calm /\ Quiet /\ dpc # "done" /\ calm' = TRUE
  /\ Obs([e |-> "settled"])
  /\ UNCHANGED <<job, box, q, ring, busy, rch, rpc, mpc, dpc>>

Step ==
  \/ \E j \in Jobs, ip \in IPs, th \in Ths : Send(j, ip, th)
  \/ \E j \in Jobs : Return(j) \/ Abandon(j)
  \/ ManagerStep \/ ManagerJoin
  \/ \E r \in Runners : RunnerRecv(r) \/ RunnerDone(r) \/ RunnerReport(r)
  \/ DropCalled \/ DropReturns \/ Look

Fair ==
  /\ WF_vars(ManagerStep) /\ WF_vars(ManagerJoin) /\ WF_vars(DropReturns)
  /\ \A r \in Runners : WF_vars(RunnerRecv(r)) /\ WF_vars(RunnerDone(r)) /\ WF_vars(RunnerReport(r))
Spec == Init /\ [][Step]_vars
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------

Conforms == gs # {}

\* every accepted job gets run as long as the queue exists
Done(j) == \A r \in Runners : rpc[r] # j
Held(j) == \E ip \in DOMAIN q : j \in Range(q[ip])
Runs == \A j \in Jobs : Held(j) ~> (~Held(j) \/ dpc # "no")
Ended == (dpc = "called") ~> (dpc = "done")
=============================================================================
