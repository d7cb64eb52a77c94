------------------------------ MODULE RedisImpl ------------------------------
(* Design of the Redis-backed registry and cache: every client is an actor   *)
(* that handles one message at a time, turns it into one command on its own  *)
(* connection, waits for the answer and passes it on to the caller, who may  *)
(* be gone by then.  The server executes commands one at a time, any answer  *)
(* may be spoiled (Faults), connections may break and are re-established.    *)
(*                                                                           *)
(* gs is the set of observer states (RedisObs) consistent with what could be *)
(* observed; the design satisfies the properties iff gs never empties.       *)
EXTENDS RedisObs

CONSTANTS Clients,    \* names of the clients; those starting with "m" are registries
          Kind,       \* Kind[c]
          Ops,        \* operations that are called
          Names,      \* names: sequences of characters
          NI,         \* number of calls
          NF,         \* number of faults
          Faults,     \* kinds of fault
          Kills,      \* number of times all connections break
          MaxT, Dur,
          Mods,       \* module lists the server may have loaded
          Miss,       \* commands that may be missing
          Gones,      \* may callers go away?
          Bug

VARIABLES now, gs, mods, miss, conn,
          mbox, proc, dead,
          call, box,          \* calls made; results waiting for their callers
          sites, keys, chals, \* the server's data
          nf, kills, visits
vars == <<now, gs, mods, miss, conn, mbox, proc, dead, call, box, sites, keys, chals, nf, kills, visits>>
env  == <<mods, miss>>
data == <<sites, keys, chals, visits>>

Obs(e) == gs' = UNION { Next(g, e) : g \in gs }
NoObs  == UNCHANGED gs
Ids    == 1..NI
None   == [pc |-> "idle"]

\* how a site and a token are turned into one key
Key(n, to) == IF Bug = "joinkey" THEN n \o <<":">> \o to ELSE <<n, to>>

Init ==
  /\ now = 0 /\ mods \in Mods /\ miss \in Miss
  /\ gs = UNION { Next(G0, [e |-> "server", modules |-> mods, missing |-> miss]) }
  /\ conn = [c \in Clients |-> "no"]
  /\ mbox = [c \in Clients |-> <<>>] /\ proc = [c \in Clients |-> None] /\ dead = {}
  /\ call = [i \in Ids |-> [op |-> ""]] /\ box = [i \in Ids |-> None]
  /\ sites = {} /\ keys = Empty /\ chals = Empty /\ visits = 0
  /\ nf = 0 /\ kills = 0

-----------------------------------------------------------------------------
(* Connecting *)

Has == IF Bug = "first" THEN Len(mods) > 0 /\ mods[1] = "mcaptcha_cache" ELSE "mcaptcha_cache" \in Range(mods)

ConnectTo(c, f) ==
  LET res == IF f # "" THEN "err" ELSE IF ~Has THEN "nomodule"
             ELSE IF Bug # "nocheck" /\ miss # <<>> THEN "nocmd" ELSE "ok"
      e1 == [e |-> "connect", c |-> c, kind |-> Kind[c]]
      e2 == [e |-> "connected", c |-> c, res |-> res, f |-> f, cmd |-> IF miss # <<>> THEN miss[1] ELSE ""]
  IN /\ conn[c] = "no"
     /\ gs' = UNION { UNION { Next(h, e2) : h \in Next(g, e1) } : g \in gs }
     /\ conn' = [conn EXCEPT ![c] = IF res = "ok" THEN "up" ELSE "refused"]
     /\ nf' = nf + (IF f = "" THEN 0 ELSE 1)
     /\ UNCHANGED <<now, env, mbox, proc, dead, call, box, data, kills>>

-----------------------------------------------------------------------------
(* Callers *)

Event(i, c, op, n, to) == [e |-> "call", i |-> i, c |-> c, op |-> op, n |-> n, to |-> to, diff |-> i, dur |-> Dur,
                           ms |-> Dur, levels |-> <<i>>, t |-> now]

Start(i, c, op, n, to) ==
  /\ call[i].op = "" /\ \A j \in Ids : j < i => call[j].op # ""
  /\ conn[c] \in {"up", "broken"}
  /\ (op \in Registry) <=> (Kind[c] = "registry")
  /\ op \in {"add", "visit", "remove", "exists", "count"} => to = n
  /\ call' = [call EXCEPT ![i] = [op |-> op, c |-> c, n |-> n, to |-> to, gone |-> FALSE]]
  /\ mbox' = IF c \in dead THEN mbox ELSE [mbox EXCEPT ![c] = Append(@, i)]
  /\ box' = IF c \in dead THEN [box EXCEPT ![i] = [pc |-> "res", res |-> "err"]] ELSE box
  /\ Obs(Event(i, c, op, n, to))
  /\ UNCHANGED <<now, env, conn, proc, dead, data, nf, kills>>

Leave(i) ==
  /\ Gones /\ call[i].op # "" /\ ~call[i].gone /\ box[i].pc # "done"
  /\ call' = [call EXCEPT ![i].gone = TRUE]
  /\ Obs([e |-> "gone", i |-> i])
  /\ UNCHANGED <<now, env, conn, mbox, proc, dead, box, data, nf, kills>>

Return(i) ==
  /\ box[i].pc = "res" /\ ~call[i].gone
  /\ box' = [box EXCEPT ![i] = [pc |-> "done"]]
  /\ Obs([e |-> "ret", i |-> i] @@ box[i])
  /\ UNCHANGED <<now, env, conn, mbox, proc, dead, call, data, nf, kills>>

-----------------------------------------------------------------------------
(* Actors *)

\* position in the mailbox that is handled next
Pos(c) == IF Bug = "unordered" THEN 1..Len(mbox[c]) ELSE IF mbox[c] = <<>> THEN {} ELSE {1}
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

Handle(c, k) ==
  /\ c \notin dead /\ proc[c].pc = "idle" /\ (Bug = "wedge" => nf = 0) /\ k \in Pos(c)
  /\ mbox' = [mbox EXCEPT ![c] = Cut(@, k)]
  \* messages of callers that are gone already are passed over
  /\ proc' = [proc EXCEPT ![c] = IF call[mbox[c][k]].gone THEN None ELSE [pc |-> "ready", i |-> mbox[c][k]]]
  /\ NoObs /\ UNCHANGED <<now, env, conn, dead, call, box, data, nf, kills>>

\* the connection turns out to be broken
Broken(c) ==
  /\ proc[c].pc = "ready" /\ conn[c] = "broken"
  /\ conn' = IF Bug = "stuck" THEN conn ELSE [conn EXCEPT ![c] = "up"]
  /\ proc' = [proc EXCEPT ![c] = [pc |-> "got", i |-> @.i, res |-> [res |-> "err"], f |-> "broken"]]
  /\ NoObs /\ UNCHANGED <<now, env, mbox, dead, call, box, data, nf, kills>>

\* the server executes an operation: new data, answer for the record, result for the caller
Exec(r) ==
  LET k    == Key(r.n, r.to)
      same == [sites |-> sites, keys |-> keys, chals |-> chals, visits |-> visits]
      ok   == [res |-> "ok"]
      has  == r.n \in sites
      err  == [d |-> same, ans |-> [k |-> "err"], res |-> [res |-> "err"]]
      chal == k \in DOMAIN chals /\ (now < chals[k].dl \/ Bug = "noexp")
      live == k \in DOMAIN keys /\ now < keys[k]
  IN CASE r.op = "add"    -> [d |-> [same EXCEPT !.sites = @ \cup {r.n}], ans |-> [k |-> "ok"], res |-> ok]
       [] r.op = "visit"  -> IF has THEN [d |-> [same EXCEPT !.visits = @ + 1],
                                          ans |-> [k |-> "visit", diff |-> visits + 1, dur |-> 7],
                                          res |-> [res |-> "ok", diff |-> IF Bug = "swap" THEN 7 ELSE visits + 1,
                                                   dur |-> IF Bug = "swap" THEN visits + 1 ELSE 7]] ELSE err
       [] r.op = "rename" -> IF has THEN [d |-> [same EXCEPT !.sites = (@ \ {r.n}) \cup {r.to}],
                                          ans |-> [k |-> "ok"], res |-> ok] ELSE err
       [] r.op = "remove" -> IF has THEN [d |-> [same EXCEPT !.sites = @ \ {r.n}], ans |-> [k |-> "ok"], res |-> ok] ELSE err
       [] r.op = "exists" -> [d |-> same, ans |-> [k |-> "bool", v |-> has],
                              res |-> [res |-> "ok", v |-> IF Bug = "invert" THEN ~has ELSE has]]
       [] r.op = "count"  -> IF has THEN [d |-> same, ans |-> [k |-> "int", v |-> visits], res |-> [res |-> "ok", v |-> visits]] ELSE err
       [] r.op = "store"  -> [d |-> [same EXCEPT !.chals = With(@, k, [diff |-> r.diff, dur |-> Dur, dl |-> now + Dur])],
                              ans |-> [k |-> "ok"], res |-> ok]
       [] r.op = "take"   -> IF chal
                             THEN [d |-> IF Bug = "peek" THEN same ELSE [same EXCEPT !.chals = Without(@, k)],
                                   ans |-> [k |-> "chal"],
                                   res |-> [res |-> "ok", diff |-> chals[k].diff, dur |-> chals[k].dur, key |-> r.n]]
                             ELSE err
       [] r.op = "tok"    -> [d |-> [same EXCEPT !.keys = With(@, k, now + Dur)], ans |-> [k |-> "ok"], res |-> ok]
       [] r.op = "val"    -> [d |-> [same EXCEPT !.keys = Without(@, k)], ans |-> [k |-> "int"],
                              res |-> [res |-> "ok", v |-> live]]

Cmd(r) == CASE r.op = "add" -> "ADD_CAPTCHA" [] r.op = "visit" -> "ADD_VISITOR" [] r.op = "rename" -> "RENAME_CAPTCHA"
            [] r.op = "remove" -> "DELETE_CAPTCHA" [] r.op = "exists" -> "CAPTCHA_EXISTS" [] r.op = "count" -> "GET"
            [] OTHER -> "CACHE"
Args(r, i) == CASE r.op = "add" -> <<r.n, i>> [] r.op = "rename" -> <<r.n, r.to>> [] OTHER -> <<r.n>>

Execute(c, f) ==
  LET i == proc[c].i
      r == [op |-> call[i].op, n |-> call[i].n, to |-> call[i].to, diff |-> i]
      x == f \notin {"error", "closebefore"}
      y == Exec(r)
      lost == \/ f \in {"error", "closebefore", "closeafter", "late"}
              \/ (f = "garbage" /\ r.op \in Looks)
      res == IF lost THEN (IF Bug = "swallow" THEN [res |-> "ok"] ELSE [res |-> "err"]) ELSE y.res
      again == Bug = "retry" /\ f \in {"closebefore", "closeafter"}
  IN /\ proc[c].pc = "ready" /\ conn[c] = "up"
     /\ f # "" => nf < NF
     \* a server's refusal stays one
     /\ f = "garbage" => y.ans.k # "err"
     /\ Obs([e |-> "recv", c |-> c, cmd |-> Cmd(r), a |-> Args(r, i), x |-> x, f |-> f, t |-> now,
             ans |-> IF x THEN y.ans ELSE [k |-> "none"], cfg |-> [ok |-> TRUE, levels |-> <<i>>, dur |-> Dur]])
     /\ nf' = nf + (IF f = "" THEN 0 ELSE 1)
     /\ IF x THEN /\ sites' = y.d.sites /\ keys' = y.d.keys /\ chals' = y.d.chals /\ visits' = y.d.visits
             ELSE UNCHANGED data
     /\ proc' = [proc EXCEPT ![c] = IF again THEN @ ELSE [pc |-> "got", i |-> i, res |-> res, f |-> f]]
     /\ UNCHANGED <<now, env, conn, mbox, dead, call, box, kills>>

\* the answer is passed on, if there is somebody left
Reply(c) ==
  LET i == proc[c].i
      dies == \/ Bug = "crash" /\ call[i].gone
              \/ Bug = "panic" /\ proc[c].f = "garbage" /\ call[i].op \in Looks
  IN /\ proc[c].pc = "got"
     /\ proc' = [proc EXCEPT ![c] = None]
     /\ dead' = IF dies THEN dead \cup {c} ELSE dead
     /\ mbox' = IF dies THEN [mbox EXCEPT ![c] = <<>>] ELSE mbox
     /\ box' = [j \in Ids |-> IF j = i THEN [pc |-> "res"] @@ (IF dies THEN [res |-> "err"] ELSE proc[c].res)
                              ELSE IF dies /\ j \in Range(mbox[c]) THEN [pc |-> "res", res |-> "err"] ELSE box[j]]
     /\ NoObs /\ UNCHANGED <<now, env, conn, call, data, nf, kills>>

-----------------------------------------------------------------------------
(* Environment *)

Idle == \A c \in Clients : proc[c].pc = "idle" /\ mbox[c] = <<>>

Break ==
  /\ kills < Kills /\ Idle
  /\ kills' = kills + 1
  /\ conn' = [c \in Clients |-> IF conn[c] = "up" THEN "broken" ELSE conn[c]]
  /\ Obs([e |-> "kill"])
  /\ UNCHANGED <<now, env, mbox, proc, dead, call, box, data, nf>>

Tick == /\ now < MaxT /\ now' = now + 1
        /\ NoObs /\ UNCHANGED <<env, conn, mbox, proc, dead, call, box, data, nf, kills>>

Step ==
  \/ \E c \in Clients : \E f \in {""} \cup (IF nf < NF THEN {"error"} ELSE {}) : ConnectTo(c, f)
  \/ \E i \in Ids, c \in Clients, op \in Ops, n \in Names, to \in Names : Start(i, c, op, n, to)
  \/ \E i \in Ids : Leave(i) \/ Return(i)
  \/ \E c \in Clients, k \in Ids : Handle(c, k)
  \/ \E c \in Clients : Broken(c) \/ Reply(c)
  \/ \E c \in Clients, f \in Faults \cup {""} : Execute(c, f)
  \/ Break \/ Tick

Spec == Init /\ [][Step]_vars

Work(c) == Broken(c) \/ Reply(c) \/ Execute(c, "") \/ \E k \in Ids : Handle(c, k)
FairSpec == Spec /\ \A c \in Clients : WF_vars(Work(c))

\* some observer state explains everything seen so far
Conforms == gs # {}
\* every call comes to an end
Served == \A i \in Ids : (call[i].op # "") ~> (box[i].pc # "idle" \/ (call[i].op # "" /\ call[i].gone))
=============================================================================
