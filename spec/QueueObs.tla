------------------------------ MODULE QueueObs ------------------------------
(* What a user of the verification queue may observe: jobs are submitted for *)
(* an address, accepted or refused, started and finished by workers; at last *)
(* the queue is dropped.  Next(g, e) is the set of ghost states that         *)
(* observing e may lead to from g; it is empty when e breaks one of the      *)
(* properties in Enforce.                                                    *)
(*                                                                           *)
(* Inside, a submission is decided (Decide) and a waiting job is taken by a  *)
(* worker (Take) at instants nobody sees; Close adds every such step.  What  *)
(* is seen: a submission is sent before it is decided and returns after, a   *)
(* job starts after it is taken.  At a "settled" event every thread is known *)
(* to be asleep, so that there's nothing left that could happen unseen.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce

Req(p, c) == (p \in Enforce) => c

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> x]
Range(s) == { s[i] : i \in 1..Len(s) }
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

G0 == [ cap   |-> 0,       \* addresses that may have jobs waiting
        w     |-> 0,       \* workers
        sent  |-> Empty,   \* submitter -> submissions not decided, in order
        acc   |-> {},      \* accepted, the submitter doesn't know yet
        ref   |-> {},      \* refused, the submitter doesn't know yet
        wait  |-> Empty,   \* address -> jobs waiting, in order
        pass  |-> Empty,   \* waiting address -> addresses served since it last was
        taken |-> {},      \* taken by a worker
        run   |-> {},      \* started
        seg   |-> 0,       \* how often it was seen at rest
        soon  |-> Empty,   \* job -> that number when it starts, if known beforehand
        over  |-> "no"     \* "dropping": drop was called, "stopped": and took effect,
                           \* "dropped": returned
      ]

-----------------------------------------------------------------------------
(* Steps nobody sees *)

Waiting(g) == DOMAIN g.wait

Enqueue(g, j, ip) ==
  IF ip \in Waiting(g) THEN [g EXCEPT !.wait[ip] = Append(@, j)]
  ELSE [g EXCEPT !.wait = With(@, ip, <<j>>), !.pass = With(@, ip, {})]

Decide(g) ==
  UNION { LET c    == Head(g.sent[th])
              rest == IF Len(g.sent[th]) = 1 THEN Without(g.sent, th)
                      ELSE [g.sent EXCEPT ![th] = Tail(@)]
              g1   == [g EXCEPT !.sent = rest]
              full == Cardinality(Waiting(g)) >= g.cap
          IN (IF Req("C14", ~full) /\ c.res # "full" THEN { Enqueue([g1 EXCEPT !.acc = @ \cup {c.id}], c.id, c.ip) } ELSE {})
             \cup (IF Req("C14", full) /\ c.res # "ok" THEN { [g1 EXCEPT !.ref = @ \cup {c.id}] } ELSE {})
          : th \in DOMAIN g.sent }

TakeJob(g, ip, i) ==
  LET q  == g.wait[ip]
      w1 == IF Len(q) = 1 THEN Without(g.wait, ip) ELSE [g.wait EXCEPT ![ip] = Drop(@, i)]
  IN [g EXCEPT !.wait = w1, !.taken = @ \cup {q[i]},
               !.pass = [a \in DOMAIN w1 |-> IF a = ip THEN {} ELSE g.pass[a] \cup {ip}]]

\* A taken job starts before the queue is seen at rest the next time: when the recording
\* tells that it doesn't, there's no need to consider that it's taken now.
Soon(g, j) == j \notin DOMAIN g.soon \/ g.soon[j] = g.seg

Take(g) ==
  IF Cardinality(g.taken) + Cardinality(g.run) >= g.w THEN {}
  ELSE UNION { { TakeJob(g, ip, i) : i \in
                   { i \in 1..Len(g.wait[ip]) : Soon(g, g.wait[ip][i]) /\
                       Req("C13", i = 1 /\ \A a \in Waiting(g) \ {ip} : ip \notin g.pass[a]) } }
             : ip \in Waiting(g) }

Hidden(g) ==
  CASE g.over \in {"no", "dropping"} -> Decide(g) \cup Take(g)
    [] g.over = "stopped"            -> IF "C15" \in Enforce THEN {} ELSE Decide(g) \cup Take(g)
    [] OTHER                         -> {}

RECURSIVE Close(_, _)
Close(S, new) ==
  LET T == UNION { Hidden(g) : g \in new } \ S
  IN IF T = {} THEN S ELSE Close(S \cup T, T)
All(g) == Close({g}, {g})

-----------------------------------------------------------------------------
(* Events *)

\* e.th sends job e.id of address e.ip and waits for the answer
Submit(g, e) ==
  LET \* what the recording tells about the outcome, likewise
      c == [id |-> e.id, ip |-> e.ip, res |-> IF "res" \in DOMAIN e THEN e.res ELSE "?"]
  IN
  { [g EXCEPT !.soon = IF "seg" \in DOMAIN e THEN With(@, e.id, e.seg) ELSE @,
              !.sent = IF e.th \in DOMAIN g.sent THEN [@ EXCEPT ![e.th] = Append(@, c)]
                       ELSE With(@, e.th, <<c>>)] }

Ret(g, e) ==
  CASE e.res = "ok"   -> { [h EXCEPT !.acc = @ \ {e.id}] : h \in { h \in All(g) : e.id \in h.acc } }
    [] e.res = "full" -> { [h EXCEPT !.ref = @ \ {e.id}] : h \in { h \in All(g) : e.id \in h.ref } }
    [] OTHER          -> IF "C12" \in Enforce THEN {} ELSE {g}

Known(g) == UNION { { c.id : c \in Range(g.sent[th]) } : th \in DOMAIN g.sent }
            \cup UNION { Range(g.wait[ip]) : ip \in Waiting(g) } \cup g.taken

Start(g, e) ==
  LET S == { [h EXCEPT !.taken = @ \ {e.id}, !.run = @ \cup {e.id}] : h \in { h \in All(g) : e.id \in h.taken } }
  IN IF S # {} \/ "C12" \in Enforce THEN S
     \* a job that was refused, has run already or was never submitted: C12's business
     ELSE IF e.id \notin Known(g) THEN { [g EXCEPT !.run = @ \cup {e.id}] } ELSE {}

Finish(g, e) == { [g EXCEPT !.run = @ \ {e.id}] }

\* All threads are asleep.
Settled(g, e) ==
  LET quiet(h) ==
        IF h.over = "no"
        THEN /\ h.taken = {} /\ Req("C12", h.sent = Empty)
             /\ Req("C12", h.wait = Empty \/ Cardinality(h.run) = h.w)
        ELSE h.taken = {}
  IN { [h EXCEPT !.over = IF @ = "dropping" THEN "stopped" ELSE @,
                 !.seg = IF "n" \in DOMAIN e THEN e.n ELSE @] : h \in { h \in All(g) : quiet(h) } }

DropCall(g, e) == { [g EXCEPT !.over = "dropping"] }
DropRet(g, e) ==
  { [h EXCEPT !.over = "dropped"] : h \in { h \in All(g) :
      Req("C15", h.run = {} /\ h.taken = {} /\ ~e.panic) } }

\* what is left of the queue after it was dropped: threads, jobs not freed
End(g, e) == IF Req("C15", e.threads = 0 /\ e.live = 0) THEN {g} ELSE {}

-----------------------------------------------------------------------------
(* Bulk family: many threads submit many jobs at once.  Only how often each  *)
(* job runs is judged, and that a bound is not hit by fewer addresses.       *)

BulkEnd(g, e) ==
  IF /\ Req("C12", e.twice = 0 /\ e.norun = 0 /\ e.refrun = 0 /\ e.err = 0)
     /\ Req("C14", e.full > 0 => e.ips >= g.cap)
     /\ Req("C14", g.cap = 0 => e.ok = 0)
  THEN {g} ELSE {}

Next(g, e) ==
  CASE e.e = "reset"   -> { [G0 EXCEPT !.cap = e.cap, !.w = e.w] }
    [] e.e = "submit"  -> Submit(g, e)
    [] e.e = "ret"     -> Ret(g, e)
    [] e.e = "abandon" -> {g}
    [] e.e = "start"   -> Start(g, e)
    [] e.e = "finish"  -> Finish(g, e)
    [] e.e = "settled" -> Settled(g, e)
    [] e.e = "dropc"   -> DropCall(g, e)
    [] e.e = "dropr"   -> DropRet(g, e)
    [] e.e = "end"     -> End(g, e)
    [] e.e = "bulk"    -> BulkEnd(g, e)
    \* nothing moves any more, or the threads never come to rest
    [] e.e = "hang"    -> IF g.over = "no" THEN (IF "C12" \in Enforce THEN {} ELSE {g})
                          ELSE (IF "C15" \in Enforce THEN {} ELSE {g})
    [] OTHER           -> {}
=============================================================================
