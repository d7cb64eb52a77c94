----------------------------- MODULE SitesImpl ------------------------------
(* Design of the embedded registry: the Master actor with its mailbox and    *)
(* map of sites, one Counter actor per site with its own mailbox, a timer    *)
(* per visit, and the cleanup task, which walks a copy of the map, asks each *)
(* accessed counter to stop if idle and then tells the master to forget it.  *)
(* Every message is handled in a step of its own; users' calls arrive in     *)
(* between.  gs is the set of observer states (SitesObs) consistent with     *)
(* what the users saw.                                                       *)
EXTENDS SitesObs

CONSTANTS Names,        \* names of sites
          Levels,       \* the levels every site is configured with
          Dur,          \* durations new sites may get
          GcP,          \* cleanup period, in ticks; 0: no cleanup
          NC, NV, NOps, MaxT,   \* counters, visits, other operations, ticks
          Kinds,        \* the other operations: subset of {"add", "remove", "rename", "restore"}
          Strict,       \* visits come only when no visitor is leaving at that very moment
          Bug

VARIABLES now, gs, mbox, reg, ctr, cbox, timers, gc, visits, ops
vars == <<now, gs, mbox, reg, ctr, cbox, timers, gc, visits, ops>>

Obs(e) == gs' = UNION { Next(g, e) : g \in gs }
NoObs  == UNCHANGED gs

NoCtr == [ alive |-> FALSE, dur |-> 0, n |-> 0, lvl |-> 1, gen |-> 0, used |-> FALSE ]
NewCtr(d, lvl, n) == [ alive |-> TRUE, dur |-> d, n |-> n, lvl |-> lvl, gen |-> 0, used |-> TRUE ]

\* the snapshot that restores use: one visitor, highest level
Snap == [ levels |-> Levels, dur |-> 1, lvl |-> Len(Levels), count |-> 1 ]

Init ==
  /\ now = 0
  /\ gs = { [G0 EXCEPT !.gc = IF GcP = 0 THEN -1 ELSE GcP, !.snaps = [x \in {1} |-> [n \in Names |-> Snap]]] }
  /\ mbox = <<>> /\ reg = Empty
  /\ ctr = [c \in 1..NC |-> NoCtr] /\ cbox = [c \in 1..NC |-> <<>>] /\ timers = {}
  /\ gc = IF GcP = 0 THEN [pc |-> "off", at |-> MaxT + 1, list |-> <<>>, c |-> 0]
          ELSE [pc |-> "sleep", at |-> GcP, list |-> <<>>, c |-> 0]
  /\ visits = [v \in 1..NV |-> [pc |-> "idle", n |-> "", res |-> "", diff |-> "", dur |-> 0]]
  /\ ops = 0

Send(m) == mbox' = Append(mbox, m)
Due == { tm \in timers : tm.at <= now }
Quiet == mbox = <<>> /\ (\A c \in 1..NC : cbox[c] = <<>>) /\ Due = {} /\ gc.pc \in {"off", "sleep"} /\ gc.at > now
Settled == Due = {} /\ \A c \in 1..NC : \A k \in DOMAIN cbox[c] : cbox[c][k].m # "Delete"

-----------------------------------------------------------------------------
(* Users *)

Visit(v, n) ==
  /\ visits[v].pc = "idle" /\ \A w \in 1..NV : w < v => visits[w].pc # "idle"
  /\ Strict => Settled
  /\ visits' = [visits EXCEPT ![v] = [@ EXCEPT !.pc = "sent", !.n = n]]
  /\ Send([m |-> "AddVisitor", n |-> n, v |-> v])
  /\ Obs([e |-> "vcall", v |-> v, site |-> n, t |-> now])
  /\ UNCHANGED <<now, reg, ctr, cbox, timers, gc, ops>>

VisitReturn(v) ==
  /\ visits[v].pc = "replied"
  /\ visits' = [visits EXCEPT ![v].pc = "done"]
  /\ Obs([e |-> "vret", v |-> v, res |-> visits[v].res, diff |-> visits[v].diff, dur |-> visits[v].dur, t |-> now])
  /\ UNCHANGED <<now, mbox, reg, ctr, cbox, timers, gc, ops>>

Other(kind) == kind \in Kinds /\ ops < NOps /\ ops' = ops + 1
                /\ UNCHANGED <<now, reg, ctr, cbox, timers, gc, visits>>

AddOp(n, d) ==
  /\ Other("add")
  /\ Send([m |-> "AddSite", n |-> n, d |-> d])
  /\ Obs([e |-> "add", site |-> n, levels |-> Levels, dur |-> d, lvl |-> 1, count |-> 0, t |-> now])
RemoveOp(n) ==
  /\ Other("remove")
  /\ Send([m |-> "Remove", n |-> n])
  /\ Obs([e |-> "remove", site |-> n])
RenameOp(n, k) ==
  /\ Other("rename")
  /\ Send([m |-> "Rename", n |-> n, to |-> k])
  /\ Obs([e |-> "rename", from |-> n, to |-> k, t |-> now])
RestoreOp(n) ==
  /\ Other("restore")
  /\ Send([m |-> "SetData", n |-> n])
  /\ Obs([e |-> "restore", snap |-> 1, all |-> FALSE, want |-> <<n>>,
          data |-> << [site |-> n, levels |-> Snap.levels, dur |-> Snap.dur, lvl |-> Snap.lvl, count |-> Snap.count] >>,
          t |-> now])

-----------------------------------------------------------------------------
(* Master *)

Fresh == CHOOSE c \in 1..NC : ~ctr[c].used /\ \A b \in 1..NC : ~ctr[b].used => c <= b
HasFresh == \E c \in 1..NC : ~ctr[c].used

Reply(vs, v, res, diff, dur) ==
  [vs EXCEPT ![v] = [@ EXCEPT !.pc = "replied", !.res = res, !.diff = diff, !.dur = dur]]

\* counter c is told to stop: what waits in its mailbox is never answered
Kill(c) ==
  /\ ctr' = [ctr EXCEPT ![c].alive = FALSE]
  /\ cbox' = [cbox EXCEPT ![c] = <<>>]
  /\ timers' = { tm \in timers : tm.c # c }
  /\ visits' = [v \in 1..NV |->
       IF \E k \in DOMAIN cbox[c] : cbox[c][k].m = "AddVisitor" /\ cbox[c][k].v = v
       THEN [visits[v] EXCEPT !.pc = "replied", !.res = "err"] ELSE visits[v]]

MasterStep ==
  /\ mbox # <<>>
  /\ NoObs /\ UNCHANGED <<now, ops>>
  /\ LET m == Head(mbox) IN
     /\ mbox' = Tail(mbox)
     /\ CASE m.m = "AddVisitor" ->
               IF m.n \notin DOMAIN reg
               THEN /\ visits' = Reply(visits, m.v, "none", "", 0)
                    /\ UNCHANGED <<reg, ctr, cbox, timers, gc>>
               ELSE LET c == reg[m.n].c IN
                    /\ reg' = [reg EXCEPT ![m.n].acc = TRUE]
                    /\ IF ctr[c].alive
                       THEN cbox' = [cbox EXCEPT ![c] = Append(@, [m |-> "AddVisitor", v |-> m.v])] /\ UNCHANGED visits
                       ELSE visits' = Reply(visits, m.v, "err", "", 0) /\ UNCHANGED cbox
                    /\ UNCHANGED <<ctr, timers, gc>>
          [] m.m = "AddSite" ->
               /\ HasFresh
               /\ IF Bug = "addkeep" /\ m.n \in DOMAIN reg THEN UNCHANGED <<reg, ctr>>
                  ELSE /\ reg' = With(reg, m.n, [c |-> Fresh, acc |-> FALSE])
                       /\ ctr' = [ctr EXCEPT ![Fresh] = NewCtr(m.d, 1, 0)]
               /\ UNCHANGED <<cbox, timers, gc, visits>>
          [] m.m = "Remove" ->
               IF m.n \notin DOMAIN reg THEN UNCHANGED <<reg, ctr, cbox, timers, gc, visits>>
               ELSE LET c == reg[m.n].c IN
                    /\ reg' = Without(reg, m.n)
                    /\ cbox' = IF ctr[c].alive THEN [cbox EXCEPT ![c] = Append(@, [m |-> "Stop"])] ELSE cbox
                    /\ UNCHANGED <<ctr, timers, gc, visits>>
          [] m.m = "Rename" ->
               /\ IF m.n \in DOMAIN reg
                  THEN reg' = With(Without(reg, m.n), m.to,
                                   [c |-> reg[m.n].c, acc |-> IF Bug = "renamemark" THEN TRUE ELSE FALSE])
                  ELSE UNCHANGED reg
               /\ UNCHANGED <<ctr, cbox, timers, gc, visits>>
          [] m.m = "SetData" ->
               IF Bug \in {"inplace", "stale"} /\ m.n \in DOMAIN reg
               THEN LET c == reg[m.n].c IN
                    /\ reg' = [reg EXCEPT ![m.n].acc = TRUE]
                    /\ cbox' = IF ctr[c].alive THEN [cbox EXCEPT ![c] = Append(@, [m |-> "SetData"])] ELSE cbox
                    /\ UNCHANGED <<ctr, timers, gc, visits>>
               ELSE /\ HasFresh
                    /\ reg' = With(reg, m.n, [c |-> Fresh, acc |-> m.n \in DOMAIN reg])
                    /\ ctr' = [ctr EXCEPT ![Fresh] = NewCtr(Snap.dur, Snap.lvl, Snap.count)]
                    /\ timers' = IF Bug = "norestoretimer" THEN timers
                                 ELSE timers \cup { [c |-> Fresh, at |-> now + Snap.dur, gen |-> 0, n |-> Snap.count, v |-> 0] }
                    /\ UNCHANGED <<cbox, gc, visits>>
          [] m.m = "CleanUp" ->
               /\ gc' = [gc EXCEPT !.pc = "walk",
                           !.list = LET S == { n \in DOMAIN reg : reg[n].acc \/ Bug = "unmarked" }
                                    IN CHOOSE q \in [1..Cardinality(S) -> {<<n, reg[n].c>> : n \in S}] :
                                         \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]]
               /\ UNCHANGED <<reg, ctr, cbox, timers, visits>>
          [] m.m = "RemoveStopped" ->
               /\ reg' = IF Bug = "byname" THEN Without(reg, m.n)
                         ELSE [n \in { x \in DOMAIN reg : reg[x].c # m.c } |-> reg[n]]
               /\ gc' = [gc EXCEPT !.pc = "walk"]
               /\ UNCHANGED <<ctr, cbox, timers, visits>>

-----------------------------------------------------------------------------
(* Counters *)

Up(lvl, n) ==
  IF n > Levels[lvl][1] THEN Min(lvl + 1, Len(Levels))
  ELSE IF lvl = 1 THEN 1
  ELSE IF Bug = "oscill" \/ n <= Levels[lvl - 1][1] THEN lvl - 1 ELSE lvl

CounterStep(c) ==
  /\ cbox[c] # <<>>
  /\ NoObs /\ UNCHANGED <<now, mbox, reg, ops>>
  /\ LET m == Head(cbox[c])
         k == ctr[c]
         rest == [cbox EXCEPT ![c] = Tail(@)]
     IN CASE m.m = "AddVisitor" ->
               LET l == Up(k.lvl, k.n + 1) IN
               /\ ctr' = [ctr EXCEPT ![c].n = @ + 1, ![c].lvl = l]
               /\ timers' = timers \cup { [c |-> c, at |-> now + k.dur, gen |-> k.gen, n |-> 1, v |-> m.v] }
               /\ visits' = Reply(visits, m.v, "ok", Levels[l][2], k.dur)
               /\ cbox' = rest /\ UNCHANGED gc
          [] m.m = "Delete" ->
               /\ ctr' = [ctr EXCEPT ![c].n = IF m.gen = k.gen THEN Max(0, @ - m.n) ELSE @]
               /\ cbox' = rest /\ UNCHANGED <<timers, visits, gc>>
          [] m.m = "SetData" ->   \* (as it was: in place)
               /\ ctr' = [ctr EXCEPT ![c] = [@ EXCEPT !.n = Snap.count, !.lvl = Snap.lvl, !.dur = Snap.dur,
                                                      !.gen = IF Bug = "stale" THEN @ ELSE @ + 1]]
               /\ timers' = timers \cup { [c |-> c, at |-> now + Snap.dur, gen |-> ctr'[c].gen, n |-> Snap.count, v |-> 0] }
               /\ cbox' = rest /\ UNCHANGED <<visits, gc>>
          [] m.m = "Stop" -> Kill(c) /\ UNCHANGED gc
          [] m.m = "StopIfIdle" ->
               IF k.n = 0
               THEN Kill(c) /\ gc' = [gc EXCEPT !.pc = "stopped"]
               ELSE gc' = [gc EXCEPT !.pc = "walk"] /\ cbox' = rest /\ UNCHANGED <<ctr, timers, visits>>
          [] m.m = "GetCount" ->
               /\ gc' = [gc EXCEPT !.pc = IF k.n = 0 THEN "kill" ELSE "walk"]
               /\ cbox' = rest /\ UNCHANGED <<ctr, timers, visits>>

Fire(tm) ==
  /\ tm.at <= now
  /\ timers' = timers \ {tm}
  /\ cbox' = [cbox EXCEPT ![tm.c] = Append(@, [m |-> "Delete", gen |-> tm.gen, n |-> tm.n])]
  /\ NoObs /\ UNCHANGED <<now, mbox, reg, ctr, gc, visits, ops>>

-----------------------------------------------------------------------------
(* Cleanup task *)

GcStep ==
  /\ NoObs /\ UNCHANGED <<now, reg, ctr, timers, visits, ops>>
  /\ \/ /\ gc.pc = "sleep" /\ gc.at <= now
        /\ gc' = [gc EXCEPT !.pc = "sent"] /\ Send([m |-> "CleanUp"]) /\ UNCHANGED cbox
     \/ /\ gc.pc = "walk" /\ gc.list = <<>>
        /\ gc' = [gc EXCEPT !.pc = "sleep", !.at = now + GcP] /\ UNCHANGED <<mbox, cbox>>
     \/ /\ gc.pc = "walk" /\ gc.list # <<>>
        /\ LET c == Head(gc.list)[2] IN
           IF ctr[c].alive
           THEN /\ cbox' = [cbox EXCEPT ![c] = Append(@, [m |-> IF Bug = "countstop" THEN "GetCount" ELSE "StopIfIdle"])]
                /\ gc' = [gc EXCEPT !.pc = "wait", !.list = Tail(@), !.c = c] /\ UNCHANGED mbox
           ELSE /\ gc' = IF Bug = "gcdies" THEN [gc EXCEPT !.pc = "off"]
                         ELSE [gc EXCEPT !.pc = "stopped", !.list = Tail(@), !.c = c]
                /\ UNCHANGED <<mbox, cbox>>
     \/ /\ gc.pc = "kill"   \* (as it was: the count was asked for first)
        /\ cbox' = IF ctr[gc.c].alive THEN [cbox EXCEPT ![gc.c] = Append(@, [m |-> "Stop"])] ELSE cbox
        /\ gc' = [gc EXCEPT !.pc = "stopped"] /\ UNCHANGED mbox
     \/ /\ gc.pc = "stopped"
        /\ Send([m |-> "RemoveStopped", c |-> gc.c,
                 n |-> IF \E n \in DOMAIN reg : reg[n].c = gc.c THEN CHOOSE n \in DOMAIN reg : reg[n].c = gc.c ELSE ""])
        /\ gc' = [gc EXCEPT !.pc = "removing"] /\ UNCHANGED cbox
     \* the counter went away before it answered
     \/ /\ gc.pc = "wait" /\ ~ctr[gc.c].alive
        /\ gc' = IF Bug = "gcdies" THEN [gc EXCEPT !.pc = "off"] ELSE [gc EXCEPT !.pc = "stopped"]
        /\ UNCHANGED <<mbox, cbox>>

-----------------------------------------------------------------------------
Tick ==
  /\ now < MaxT /\ Quiet
  /\ now' = now + 1
  /\ NoObs /\ UNCHANGED <<mbox, reg, ctr, cbox, timers, gc, visits, ops>>

\* a snapshot, when nothing is going on
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Look ==
  /\ Quiet
  /\ Obs([e |-> "dump", snap |-> 2, t |-> now,
          data |-> AsSeq({ [site |-> n, levels |-> Levels, dur |-> ctr[reg[n].c].dur, lvl |-> ctr[reg[n].c].lvl,
                            count |-> ctr[reg[n].c].n] : n \in { x \in DOMAIN reg : ctr[reg[x].c].alive } })])
  /\ UNCHANGED <<now, mbox, reg, ctr, cbox, timers, gc, visits, ops>>

UserOp ==
  \/ \E n \in Names, d \in Dur : AddOp(n, d)
  \/ \E n \in Names : RemoveOp(n) \/ RestoreOp(n)
  \/ \E n \in Names, k \in Names : RenameOp(n, k)

NextStep ==
  \/ \E v \in 1..NV : VisitReturn(v) \/ \E n \in Names : Visit(v, n)
  \/ UserOp \/ MasterStep \/ GcStep \/ Tick \/ Look
  \/ \E c \in 1..NC : CounterStep(c)
  \/ \E tm \in timers : Fire(tm)

Fairness ==
  /\ WF_vars(MasterStep) /\ WF_vars(GcStep) /\ WF_vars(Tick)
  /\ \A c \in 1..NC : WF_vars(CounterStep(c))
  /\ WF_vars(\E tm \in timers : Fire(tm))
  /\ \A v \in 1..NV : WF_vars(VisitReturn(v))

Spec == Init /\ [][NextStep]_vars /\ Fairness

-----------------------------------------------------------------------------
Conforms == gs # {}

\* the count is what the timers will take back
Balanced ==
  Bug = "none" =>
  \A c \in 1..NC : ctr[c].alive =>
    ctr[c].n = LET T == { tm \in timers : tm.c = c /\ tm.gen = ctr[c].gen }
                   Q == { k \in DOMAIN cbox[c] : cbox[c][k].m = "Delete" /\ cbox[c][k].gen = ctr[c].gen }
                   RECURSIVE S1(_)
                   S1(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN x.n + S1(X \ {x})
                   RECURSIVE S2(_)
                   S2(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN cbox[c][x].n + S2(X \ {x})
               IN S1(T) + S2(Q)

\* every visit is answered, and cleanup keeps going round
Served == \A v \in 1..NV : (visits[v].pc = "sent") ~> (visits[v].pc = "done")
Rounds == GcP > 0 => []<>(gc.pc = "sleep")
GcAlive == gc.pc # "off" \/ GcP = 0
=============================================================================
