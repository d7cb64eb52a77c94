------------------------------- MODULE RedisObs ------------------------------
(* What can be observed of the Redis-backed registry and cache: calls and    *)
(* what becomes of them on one side, the commands that reach the server on   *)
(* the other.  Next(g, e) is the set of ghost states that observing the      *)
(* event e may lead to from the ghost state g; empty when e breaks one of    *)
(* the properties in Enforce.                                                *)
(*                                                                           *)
(* A client (a registry, a cache or a bare connection) works off its calls   *)
(* one by one in the order in which they were made.  The server's part is    *)
(* played by the environment; the record of a command tells whether it was   *)
(* executed (x), what the server answered (ans), and which fault, if any,    *)
(* befell the answer (f).                                                    *)
(*                                                                           *)
(* The abstract store of challenges and tokens (chal, tok) is kept by pairs  *)
(* of names, so whatever is confused on the way to the server shows up in    *)
(* the results.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce

Req(p, c) == (p \in Enforce) => c
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> x]
Range(s) == { s[i] : i \in 1..Len(s) }

G0 == [ modules |-> {"mcaptcha_cache"}, missing |-> {},
        up      |-> TRUE,        \* does the server accept connections?
        cl      |-> Empty,       \* client -> [kind, q: calls not yet seen at the server,
                                 \*            cur: the call seen last, if pending, late: when an answer was last late, slack: may it find its connection broken?]
        calls   |-> Empty,
        chal    |-> Empty,       \* <<site, string>> -> [diff, dur, dl]
        tok     |-> Empty ]      \* <<site, token>> -> deadline

Registry == {"add", "visit", "rename", "remove", "exists", "count"}
\* calls that need the answer, not only an answer
Looks == {"visit", "exists", "count", "take", "val"}

-----------------------------------------------------------------------------
(* Connecting *)

Connect(g, e) == { [g EXCEPT !.cl = With(@, e.c, [kind |-> e.kind, q |-> <<>>, cur |-> <<>>, slack |-> 0, late |-> -10000])] }

Connected(g, e) ==
  LET has == "mcaptcha_cache" \in g.modules
      ok  == IF e.f # "" \/ ~g.up
             THEN /\ Req("C18", e.res \notin {"ok", "panic"})
                  /\ Req("C20", e.res = "ok" => g.up /\ has /\ g.missing = {})
             ELSE /\ Req("C20", e.res = "ok" <=> has /\ g.missing = {})
                  /\ Req("C20", e.res # "ok" => \/ e.res = "nomodule" /\ ~has
                                                \/ e.res = "nocmd" /\ e.cmd \in g.missing)
                  /\ Req("C18", e.res # "panic")
                  /\ Req("C18", has /\ g.missing = {} => e.res = "ok")
  IN IF ok THEN { IF e.res = "ok" THEN g ELSE [g EXCEPT !.cl = Without(@, e.c)] } ELSE {}

-----------------------------------------------------------------------------
(* Calls *)

Call(g, e) ==
  { [g EXCEPT !.calls = With(@, e.i, [call |-> e, seen |-> FALSE, gone |-> FALSE, f |-> "",
                                      x |-> FALSE, ans |-> [k |-> "none"], exp |-> [k |-> "none"]]),
              !.cl[e.c].q = Append(@, e.i)] }

Gone(g, e) == { [g EXCEPT !.calls[e.i].gone = TRUE] }

\* the command that a registry call is to become
Fits(r, e) ==
  CASE r.op = "add"    -> /\ e.cmd = "ADD_CAPTCHA" /\ Len(e.a) = 2 /\ e.a[1] = r.n
                          /\ e.cfg.ok /\ e.cfg.levels = r.levels /\ e.cfg.dur = r.dur
    [] r.op = "visit"  -> e.cmd = "ADD_VISITOR" /\ e.a = <<r.n>>
    [] r.op = "rename" -> e.cmd = "RENAME_CAPTCHA" /\ e.a = <<r.n, r.to>>
    [] r.op = "remove" -> e.cmd = "DELETE_CAPTCHA" /\ e.a = <<r.n>>
    [] r.op = "exists" -> e.cmd = "CAPTCHA_EXISTS" /\ e.a = <<r.n>>
    [] r.op = "count"  -> e.cmd = "GET" /\ e.a = <<r.n>>
    [] OTHER           -> TRUE

\* what executing a cache call does to the store, and what it should bring back
Effect(g, r, t) ==
  LET p    == <<r.n, r.to>>
      none == [g |-> g, exp |-> [k |-> "ok"]]
  IN CASE r.op = "store" -> [g |-> [g EXCEPT !.chal = With(@, p, [diff |-> r.diff, dur |-> r.dur, dl |-> t + r.ms])],
                             exp |-> [k |-> "ok"]]
       [] r.op = "take"  -> IF p \in DOMAIN g.chal /\ t < g.chal[p].dl
                            THEN [g |-> [g EXCEPT !.chal = Without(@, p)],
                                  exp |-> [k |-> "got", diff |-> g.chal[p].diff, dur |-> g.chal[p].dur]]
                            ELSE [g |-> g, exp |-> [k |-> "miss"]]
       [] r.op = "drop"  -> [g |-> [g EXCEPT !.chal = Without(@, p)],
                             exp |-> [k |-> IF p \in DOMAIN g.chal /\ t < g.chal[p].dl THEN "ok" ELSE "miss"]]
       [] r.op = "tok"   -> [g |-> [g EXCEPT !.tok = With(@, p, t + r.ms)], exp |-> [k |-> "ok"]]
       [] r.op = "val"   -> [g |-> [g EXCEPT !.tok = Without(@, p)],
                             exp |-> [k |-> IF p \in DOMAIN g.tok /\ t < g.tok[p] THEN "true" ELSE "false"]]
       [] r.op = "untok" -> [g |-> [g EXCEPT !.tok = Without(@, p)], exp |-> [k |-> "ok"]]
       [] OTHER          -> none

\* the server receives a command: it is the next call's of that client, those of
\* callers that are gone may have been left out
Recv(g, e) ==
  LET c     == g.cl[e.c]
      \* calls left out: their callers are gone, or they found the connection broken
      lost(k) == { j \in 1..k - 1 : ~g.calls[c.q[j]].gone }
      cands == { k \in 1..Len(c.q) : Cardinality(lost(k)) <= c.slack }
      take(k) ==
        LET i   == c.q[k]
            r   == g.calls[i].call
            \* a storing call that the server turns down has no effect
            did == e.x /\ ~(r.op \in {"store", "tok"} /\ e.ans.k = "err")
            ef  == Effect(g, r, e.t)
            g1  == IF did THEN ef.g ELSE g
            left == { c.q[j] : j \in lost(k) }
        IN [g1 EXCEPT !.calls = [h \in DOMAIN @ |-> IF h \in left THEN [@[h] EXCEPT !.f = "broken"] ELSE @[h]],
                      !.calls[i].seen = TRUE, !.calls[i].f = e.f, !.calls[i].x = e.x, !.calls[i].ans = e.ans,
                      !.calls[i].exp = IF did THEN ef.exp ELSE [k |-> "none"],
                      !.cl[e.c].q = SubSeq(@, k + 1, Len(@)), !.cl[e.c].cur = <<i>>, !.cl[e.c].slack = 0,
                      !.cl[e.c].late = IF e.f = "late" THEN e.t ELSE @]
      \* several commands for one call would do, but not for the registry
      more == IF c.cur # <<>> /\ Req("C17", g.calls[c.cur[1]].call.op \notin Registry)
              THEN { [g EXCEPT !.calls[c.cur[1]].f = IF e.f # "" THEN e.f ELSE @] } ELSE {}
  IN { take(k) : k \in { k \in cands : Req("C17", Fits(g.calls[c.q[k]].call, e)) } } \cup more

-----------------------------------------------------------------------------
(* Results *)

Hard == {"error", "closebefore", "closeafter", "partial", "junk", "late"}
Bad  == {"wrongtype", "garbage", "fields", "range", "binary", "nil"}

Ret(g, e) ==
  LET s    == g.calls[e.i]
      r    == s.call
      cl   == g.cl[r.c]
      fail == e.res = "err"
      good == e.res \in {"ok", "none"} /\ (r.op = "ping" => e.v)
      \* a count out of range goes unnoticed
      hurt == s.seen /\ (s.f \in Hard \/ (s.f \in Bad /\ r.op \in Looks /\ ~(s.f = "range" /\ r.op = "count")))
      calm == s.seen /\ s.f = ""
      guard ==
        /\ Req("C18", e.res # "panic")
        \* no success without the server
        /\ Req("C18", ~s.seen => ~good) /\ Req("C17", ~s.seen => ~good)
        /\ Req("C18", hurt => ~good)
        \* a refusal by the server comes through
        /\ Req("C18", calm /\ s.ans.k = "err" => e.res # "ok")
        \* no failure without a reason
        /\ Req("C18", fail => \/ s.f # "" \/ (s.seen /\ s.ans.k = "err")
                              \* an answer being late, those after it are
                              \/ r.t <= cl.late + 1000
                              \/ (~s.seen /\ (cl.slack > 0 \/ ~g.up)))
        /\ r.op \in Registry /\ calm /\ s.ans.k # "err" =>
             /\ Req("C17", e.res = "ok")
             /\ Req("C17", r.op = "visit"  => e.diff = s.ans.diff /\ e.dur = s.ans.dur)
             /\ Req("C17", r.op \in {"count", "exists"} => e.v = s.ans.v)
        /\ r.op \in Registry /\ calm /\ s.ans.k = "err" => Req("C17", e.res # "ok")
        /\ r.op \notin Registry /\ calm =>
             /\ Req("C16", r.op \in {"store", "tok"} /\ s.ans.k = "ok" => e.res = "ok")
             /\ Req("C16", r.op = "take" => (e.res = "ok" <=> s.exp.k = "got"))
             /\ Req("C16", r.op = "take" /\ s.exp.k = "got" =>
                      e.diff = s.exp.diff /\ e.dur = s.exp.dur /\ e.key = r.n)
             /\ Req("C16", r.op = "drop" => (e.res = "ok" <=> s.exp.k = "ok"))
             /\ Req("C16", r.op = "val" => e.res = "ok" /\ (e.v <=> s.exp.k = "true"))
        \* whatever happened on the way
        /\ Req("C16", r.op = "val" /\ e.res = "ok" /\ e.v => s.seen /\ s.exp.k = "true")
        /\ Req("C16", r.op = "take" /\ e.res = "ok" => s.seen /\ s.exp.k = "got")
        /\ r.op = "ping" => Req("C18", calm => e.v) /\ Req("C18", e.v => calm \/ s.f = "nil")
      \* a connection found broken is replaced
      g1 == IF fail /\ ~s.seen THEN [g EXCEPT !.cl[r.c].slack = IF @ > 0 THEN @ - 1 ELSE 0] ELSE g
  IN IF guard THEN { [g1 EXCEPT !.calls = Without(@, e.i), !.cl[r.c].q = SelectSeq(@, LAMBDA j : j # e.i),
                                !.cl[r.c].cur = IF @ = <<e.i>> THEN <<>> ELSE @] } ELSE {}

\* connections break, at rest
Kill(g, up) == { [g EXCEPT !.up = up, !.cl = [c \in DOMAIN @ |-> [@[c] EXCEPT !.slack = 1]]] }
\* what was called meanwhile may have failed already
Up(g) == { [g EXCEPT !.up = TRUE, !.cl = [c \in DOMAIN @ |-> [@[c] EXCEPT !.slack = 1]],
                     !.calls = [i \in DOMAIN @ |-> IF @[i].seen THEN @[i] ELSE [@[i] EXCEPT !.f = "down"]]] }

-----------------------------------------------------------------------------

Next(g, e) ==
  CASE e.e = "reset"     -> {G0}
    [] e.e = "server"    -> { [g EXCEPT !.modules = Range(e.modules), !.missing = Range(e.missing)] }
    [] e.e = "connect"   -> Connect(g, e)
    [] e.e = "connected" -> Connected(g, e)
    [] e.e = "call"      -> Call(g, e)
    [] e.e = "gone"      -> Gone(g, e)
    [] e.e = "recv"      -> Recv(g, e)
    [] e.e = "ret"       -> Ret(g, e)
    [] e.e = "kill"      -> Kill(g, g.up)
    [] e.e = "down"      -> Kill(g, FALSE)
    [] e.e = "up"        -> Up(g)
    [] OTHER             -> {}
=============================================================================
