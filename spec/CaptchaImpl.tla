---------------------------- MODULE CaptchaImpl -----------------------------
(* Design of the challenge/response path of libmcaptcha at the granularity   *)
(* at which its parts interleave: callers of System::{get_pow, verify_pow,   *)
(* validate_verification_tokens} take one step per suspension point, the     *)
(* cache actor (HashCache) handles one mailbox message at a time, entry      *)
(* timers fire and send delete messages, runner threads deliver verdicts,    *)
(* and a caller may vanish at every suspension point.                        *)
(*                                                                           *)
(* gs is the set of observer states (CaptchaObs) consistent with what the    *)
(* callers saw; the design satisfies the properties iff gs never empties.    *)
EXTENDS CaptchaObs

CONSTANTS Sites,     \* site names
          Dur,       \* Dur[site]: duration in ms
          NC, NV, NX, MaxT,
          Drops,     \* may callers vanish?
          Bug        \* "none", or a design mistake the check must notice

VARIABLES now, gs, diffNow,
          mbox,      \* mailbox of the cache actor
          dmap,      \* challenge -> stored config
          rmap,      \* token -> site
          timers,    \* armed timers
          ip,        \* pc and data of each issue call
          vp,        \* of each verify call
          xp         \* of each validate call
vars == <<now, gs, diffNow, mbox, dmap, rmap, timers, ip, vp, xp>>

Chal == 1..NC      \* challenge i is the one minted by issue call i
Obs(e) == gs' = UNION { Next(g, e) : g \in gs }
NoObs  == UNCHANGED gs

Init ==
  /\ now = 0 /\ diffNow = 1
  /\ gs = { [G0 EXCEPT !.sites = [s \in Sites |-> Dur[s]]] }
  /\ mbox = <<>> /\ dmap = Empty /\ rmap = Empty /\ timers = {}
  /\ ip = [i \in Chal |-> [pc |-> "idle"]]
  /\ vp = [v \in 1..NV |-> [pc |-> "idle"]]
  /\ xp = [x \in 1..NX |-> [pc |-> "idle"]]

Send(m) == mbox' = Append(mbox, m)

-----------------------------------------------------------------------------
(* System::get_pow *)

\* call and visit at the master (difficulty of the moment)
IssueStart(i, s) ==
  /\ ip[i].pc = "idle" /\ \A j \in Chal : j < i => ip[j].pc # "idle"
  /\ ip' = [ip EXCEPT ![i] = [pc |-> "visited", s |-> s, d |-> diffNow]]
  /\ Obs([e |-> "icall", i |-> i, site |-> s, t |-> now])
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, vp, xp>>

IssueCache(i) ==
  /\ ip[i].pc = "visited"
  /\ ip' = [ip EXCEPT ![i].pc = "sent"]
  /\ Send([m |-> "CachePoW", i |-> i, c |-> i, key |-> ip[i].s, d |-> ip[i].d,
           dur |-> Dur[ip[i].s]])
  /\ NoObs /\ UNCHANGED <<now, diffNow, dmap, rmap, timers, vp, xp>>

IssueReturn(i) ==
  /\ ip[i].pc = "cached"
  /\ ip' = [ip EXCEPT ![i].pc = "done"]
  /\ Obs([e |-> "iret", i |-> i, c |-> i, diff |-> ip[i].d, t |-> now])
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, vp, xp>>

IssueDrop(i) ==
  /\ Drops /\ ip[i].pc \in {"visited", "sent", "cached"}
  /\ ip' = [ip EXCEPT ![i].pc = "dropped"]
  /\ Obs([e |-> "idrop", i |-> i, t |-> now])
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, vp, xp>>

-----------------------------------------------------------------------------
(* System::verify_pow *)

\* symmetric callers start in order
VerifyStart(v, c, k, good) ==
  /\ vp[v].pc = "idle" /\ \A u \in 1..NV : u < v => vp[u].pc # "idle"
  /\ ip[c].pc = "done"
  /\ vp' = [vp EXCEPT ![v] = [pc |-> "sent", c |-> c, key |-> k, good |-> good]]
  /\ Send([m |-> "RetrivePoW", v |-> v, c |-> c])
  /\ Obs([e |-> "vcall", v |-> v, c |-> c, key |-> k, valid |-> good, suff |-> TRUE, t |-> now])
  /\ UNCHANGED <<now, diffNow, dmap, rmap, timers, ip, xp>>

NoCfg == [key |-> "", d |-> 0, dur |-> 0]

VRes(v, res) ==
  Obs([e |-> "vret", v |-> v, res |-> res, k |-> 100 + v, t |-> now,
       diff |-> IF res = "ok" THEN vp[v].cfg.d ELSE 0])

\* the reply of the cache is there
VerifyGot(v) ==
  /\ vp[v].pc = "replied"
  /\ IF vp[v].cfg = NoCfg
     THEN /\ vp' = [vp EXCEPT ![v].pc = "done"] /\ VRes(v, "notfound")
     ELSE IF vp[v].cfg.key # vp[v].key /\ Bug # "anykey"
     THEN /\ vp' = [vp EXCEPT ![v].pc = "done"] /\ VRes(v, "key")
     ELSE /\ vp' = [vp EXCEPT ![v].pc = "queued"] /\ NoObs
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, ip, xp>>

\* a runner judges the work
VerifyRun(v) ==
  /\ vp[v].pc = "queued"
  /\ vp' = [vp EXCEPT ![v].pc = "judged"]
  /\ NoObs /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, ip, xp>>

VerifyVerdict(v) ==
  /\ vp[v].pc = "judged"
  /\ IF ~vp[v].good
     THEN /\ vp' = [vp EXCEPT ![v].pc = "done"] /\ VRes(v, "insuff") /\ UNCHANGED mbox
     ELSE /\ vp' = [vp EXCEPT ![v].pc = "saving"]
          /\ Send([m |-> "CacheResult", v |-> v, k |-> 100 + v, key |-> vp[v].cfg.key,
                   c |-> vp[v].c, dur |-> vp[v].cfg.dur])
          /\ NoObs
  /\ UNCHANGED <<now, diffNow, dmap, rmap, timers, ip, xp>>

VerifyReturn(v) ==
  /\ vp[v].pc = "saved"
  /\ vp' = [vp EXCEPT ![v].pc = "done"] /\ VRes(v, "ok")
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, ip, xp>>

VerifyDrop(v) ==
  /\ Drops /\ vp[v].pc \in {"sent", "replied", "queued", "judged", "saving", "saved"}
  /\ vp' = [vp EXCEPT ![v].pc = "dropped"]
  /\ Obs([e |-> "vdrop", v |-> v, t |-> now, settled |-> vp[v].pc # "sent"])
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, ip, xp>>

-----------------------------------------------------------------------------
(* System::validate_verification_tokens *)

\* callers know the tokens handed out, and may make one up
Tokens == { 99 } \cup { 100 + v : v \in { u \in 1..NV : vp[u].pc = "done" } }

ValidateStart(x, k, key) ==
  /\ xp[x].pc = "idle" /\ \A y \in 1..NX : y < x => xp[y].pc # "idle"
  /\ xp' = [xp EXCEPT ![x] = [pc |-> "sent", k |-> k, key |-> key]]
  /\ Send([m |-> "Verify", x |-> x, k |-> k, key |-> key])
  /\ Obs([e |-> "xcall", x |-> x, k |-> k, key |-> key, t |-> now])
  /\ UNCHANGED <<now, diffNow, dmap, rmap, timers, ip, vp>>

ValidateReturn(x) ==
  /\ xp[x].pc = "replied"
  /\ xp' = [xp EXCEPT ![x].pc = "done"]
  /\ Obs([e |-> "xret", x |-> x, res |-> xp[x].res, t |-> now])
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, ip, vp>>

ValidateDrop(x) ==
  /\ Drops /\ xp[x].pc \in {"sent", "replied"}
  /\ xp' = [xp EXCEPT ![x].pc = "dropped"]
  /\ Obs([e |-> "xdrop", x |-> x, t |-> now])
  /\ UNCHANGED <<now, diffNow, mbox, dmap, rmap, timers, ip, vp>>

-----------------------------------------------------------------------------
(* The cache actor handles the first message of its mailbox *)

Reply(p, n, pc, f, val) ==    \* wake a caller, unless it is gone
  IF p[n].pc = pc THEN [p EXCEPT ![n] = f @@ [pc |-> val] @@ @] ELSE p

Cache ==
  /\ mbox # <<>>
  /\ NoObs
  /\ LET m == Head(mbox) IN
     CASE m.m = "CachePoW" ->
            /\ dmap' = With(dmap, m.c, [key |-> m.key, d |-> m.d, dur |-> m.dur])
            /\ timers' = timers \cup { [m |-> "DeletePoW", s |-> m.c, at |-> now + m.dur] }
            /\ ip' = Reply(ip, m.i, "sent", Empty, "cached")
            /\ mbox' = Tail(mbox)
            /\ UNCHANGED <<rmap, vp, xp>>
       [] m.m = "DeletePoW" ->
            /\ dmap' = IF Bug = "noexpiry" THEN dmap
                       ELSE IF Bug = "expireall" THEN Empty ELSE Without(dmap, m.s)
            /\ mbox' = Tail(mbox)
            /\ UNCHANGED <<rmap, timers, ip, vp, xp>>
       [] m.m = "RetrivePoW" ->
            /\ vp' = Reply(vp, m.v, "sent",
                           [cfg |-> IF m.c \in DOMAIN dmap THEN dmap[m.c] ELSE NoCfg], "replied")
            /\ dmap' = IF Bug = "peek" THEN dmap ELSE Without(dmap, m.c)
            /\ mbox' = Tail(mbox)
            /\ UNCHANGED <<rmap, timers, ip, xp>>
       [] m.m = "CacheResult" ->
            /\ rmap' = With(rmap, m.k, m.key)
            /\ dmap' = IF Bug = "peek" THEN Without(dmap, m.c) ELSE dmap
            /\ timers' = timers \cup { [m |-> "DeleteResult", s |-> m.k,
                                        at |-> now + (IF Bug = "tokdur" THEN 1 ELSE m.dur)] }
            /\ vp' = Reply(vp, m.v, "saving", Empty, "saved")
            /\ mbox' = Tail(mbox)
            /\ UNCHANGED <<ip, xp>>
       [] m.m = "DeleteResult" ->
            /\ rmap' = Without(rmap, m.s)
            /\ mbox' = Tail(mbox)
            /\ UNCHANGED <<dmap, timers, ip, vp, xp>>
       [] m.m = "Verify" ->
            /\ xp' = Reply(xp, m.x, "sent",
                           [res |-> IF m.k \in DOMAIN rmap /\ (rmap[m.k] = m.key \/ Bug = "anytok")
                                    THEN "true" ELSE "false"], "replied")
            /\ rmap' = IF Bug = "tokpeek" THEN rmap ELSE Without(rmap, m.k)
            /\ mbox' = Tail(mbox)
            /\ UNCHANGED <<dmap, timers, ip, vp>>
  /\ UNCHANGED <<now, diffNow>>

Fire(tm) ==
  /\ tm.at <= now
  /\ timers' = timers \ {tm}
  /\ Send([m |-> tm.m, s |-> tm.s])
  /\ NoObs /\ UNCHANGED <<now, diffNow, dmap, rmap, ip, vp, xp>>

\* time passes when the actor has caught up and no timer is due
Tick ==
  /\ now < MaxT /\ mbox = <<>> /\ \A tm \in timers : tm.at > now
  /\ now' = now + 1
  /\ NoObs /\ UNCHANGED <<diffNow, mbox, dmap, rmap, timers, ip, vp, xp>>

\* traffic moves the level
Level ==
  /\ \E i \in Chal : ip[i].pc = "idle"
  /\ diffNow' = 3 - diffNow
  /\ NoObs /\ UNCHANGED <<now, mbox, dmap, rmap, timers, ip, vp, xp>>

Issue(i)  == (\E s \in Sites : IssueStart(i, s)) \/ IssueCache(i) \/ IssueReturn(i)
Verify(v) == VerifyGot(v) \/ VerifyRun(v) \/ VerifyVerdict(v) \/ VerifyReturn(v)

NextStep ==
  \/ \E i \in Chal : Issue(i) \/ IssueDrop(i)
  \/ \E v \in 1..NV : Verify(v) \/ VerifyDrop(v)
  \/ \E v \in 1..NV, c \in Chal, k \in Sites, good \in BOOLEAN : VerifyStart(v, c, k, good)
  \/ \E x \in 1..NX, k \in Tokens, key \in Sites : ValidateStart(x, k, key)
  \/ \E x \in 1..NX : ValidateReturn(x) \/ ValidateDrop(x)
  \/ Cache \/ Tick \/ Level
  \/ \E tm \in timers : Fire(tm)

Fairness ==
  /\ \A i \in Chal : WF_vars(IssueCache(i) \/ IssueReturn(i))
  /\ \A v \in 1..NV : WF_vars(Verify(v))
  /\ \A x \in 1..NX : WF_vars(ValidateReturn(x))
  /\ WF_vars(Cache) /\ WF_vars(\E tm \in timers : Fire(tm))

Spec == Init /\ [][NextStep]_vars /\ Fairness

-----------------------------------------------------------------------------
\* the callers never see anything that the properties exclude
Conforms == gs # {}

\* what the maps hold is covered by a timer: nothing outlives its time for good
Timed ==
  /\ \A c \in DOMAIN dmap :
       (\E tm \in timers : tm.m = "DeletePoW" /\ tm.s = c)
         \/ (\E n \in DOMAIN mbox : mbox[n].m = "DeletePoW" /\ mbox[n].s = c)
  /\ \A k \in DOMAIN rmap :
       (\E tm \in timers : tm.m = "DeleteResult" /\ tm.s = k)
         \/ (\E n \in DOMAIN mbox : mbox[n].m = "DeleteResult" /\ mbox[n].s = k)

\* every call that isn't abandoned returns
Returns ==
  /\ \A i \in Chal : (ip[i].pc \in {"visited", "sent", "cached"}) ~> (ip[i].pc \in {"done", "dropped"})
  /\ \A v \in 1..NV : (vp[v].pc # "idle") ~> (vp[v].pc \in {"done", "dropped"})
  /\ \A x \in 1..NX : (xp[x].pc # "idle") ~> (xp[x].pc \in {"done", "dropped"})
=============================================================================
