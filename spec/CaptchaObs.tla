----------------------------- MODULE CaptchaObs -----------------------------
(* What a user of the challenge/response part of mCaptcha may observe:       *)
(* challenges are issued, works are submitted for them, tokens are earned    *)
(* and validated.  Next(g, e) is the set of ghost states that observing the  *)
(* event e may lead to from the ghost state g; it is empty when e breaks one *)
(* of the properties in Enforce.  Req(p, c) labels every demand with the     *)
(* property that makes it.                                                   *)
(*                                                                           *)
(* The same operator judges two things: the abstract runs of the design      *)
(* model CaptchaImpl, and the event traces recorded from the real code       *)
(* (CaptchaTrace).                                                           *)
(*                                                                           *)
(* Times are milliseconds.  A call is an interval [call, return]; whatever   *)
(* it does happens somewhere inside, so an expiry instant is known only as   *)
(* an interval [lo, hi] and demands are made outside of it.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce

Req(p, c) == (p \in Enforce) => c

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> x]

G0 == [ sites   |-> Empty,     \* registered sites: name -> duration (ms)
        mayfull |-> FALSE,     \* can the verification queue be full?
        rough   |-> FALSE,     \* is the server behind the cache or the registry playing up?
        byname  |-> FALSE,     \* are challenges looked up by site and string? (Redis)
        is      |-> Empty,     \* challenge requests in flight
        ch      |-> Empty,     \* challenges issued so far
        vs      |-> Empty,     \* verifications in flight
        tk      |-> Empty,     \* tokens issued so far
        xs      |-> Empty ]    \* validations in flight

-----------------------------------------------------------------------------
(* Issuing *)

ICall(g, e) == { [g EXCEPT !.is = With(@, e.i, [site |-> e.site, t |-> e.t])] }

\* e.c is an interned challenge string: two equal strings get equal names
IRet(g, e) ==
  LET s   == g.is[e.i]
      reg == s.site \in DOMAIN g.sites
      dur == IF reg THEN g.sites[s.site] ELSE 0
      rec == [ site |-> s.site, diff |-> e.diff, dur |-> dur,
               lo |-> s.t + dur, hi |-> e.t + dur, taken |-> FALSE, cand |-> {} ]
  IN IF Req("C01", e.c \notin DOMAIN g.ch) /\ Req("C08", reg) /\ Req("C19", reg)
     THEN { [g EXCEPT !.is = Without(@, e.i), !.ch = With(@, e.c, rec)] } ELSE {}

\* no challenge was handed out: only right for a site that isn't registered
INone(g, e) ==
  LET known == g.is[e.i].site \in DOMAIN g.sites
  IN IF g.rough \/ (Req("C08", ~known) /\ Req("C02", ~known) /\ Req("C19", ~known) /\ Req("C18", ~known))
     THEN { [g EXCEPT !.is = Without(@, e.i)] } ELSE {}

IDrop(g, e) == { [g EXCEPT !.is = Without(@, e.i)] }

\* n challenges (or tokens) were minted, how many distinct strings were they
Mint(g, e) == IF /\ Req("C01", e.what = "challenge" => e.n = e.distinct)
                 /\ Req("C03", e.what = "token" => e.n = e.distinct)
              THEN {g} ELSE {}

\* Many others, summed up: of n challenges, some were answered early, some after a
\* while, then all once more; the tokens earned early were validated after that while,
\* then once more.
Flood(g, e) ==
  LET early == IF e.early < e.n THEN e.early ELSE e.n
  IN IF /\ Req("C01", e.again = 0) /\ Req("C03", e.twice = 0)
        /\ Req("C02", e.n = e.asked)
        /\ IF e.late THEN Req("C04", e.earned = early /\ e.good = 0)
           ELSE /\ Req("C02", e.failed = 0) /\ Req("C04", e.failed = 0 /\ e.good = early)
                /\ Req("C03", e.good = early)
     THEN {g} ELSE {}

-----------------------------------------------------------------------------
(* Verification *)

VCall(g, e) ==
  LET live == e.c \in DOMAIN g.ch /\ e.t <= g.ch[e.c].hi
      g1   == [g EXCEPT !.vs = With(@, e.v, [c |-> e.c, key |-> e.key,
                                             valid |-> e.valid, suff |-> e.suff, t |-> e.t])]
      \* looked up by name, a challenge isn't touched on behalf of another site
      meant == g.byname => e.key = g.ch[e.c].site
  IN { IF live /\ meant THEN [g1 EXCEPT !.ch[e.c].cand = @ \cup {e.v}] ELSE g1 }

\* outcomes that tell that the challenge was found, and so used up
Found == {"ok", "key", "insuff", "full"}

VRet(g, e) ==
  LET s     == g.vs[e.v]
      known == s.c \in DOMAIN g.ch
      ch    == g.ch[s.c]
      good  == s.valid /\ s.suff /\ s.key = ch.site
      found == e.res \in Found
      meant == g.byname => s.key = ch.site
      \* nobody else can have used this challenge up
      alone == ~ch.taken /\ ch.cand \subseteq {e.v}
      guard ==
        IF ~known
        THEN Req("C01", ~found)
        ELSE /\ Req("C01", found => ~ch.taken)
             /\ Req("C04", found => s.t <= ch.hi)
             /\ Req("C02", e.res = "ok" => good /\ e.diff = ch.diff)
             /\ Req("C02", found /\ good => e.res = "ok" \/ (g.mayfull /\ e.res = "full"))
             /\ Req("C02", good /\ alone /\ e.t < ch.lo => found \/ g.rough)
             /\ Req("C04", alone /\ meant /\ e.t < ch.lo => found \/ g.rough)
             /\ Req("C19", e.res # "err" \/ g.byname)
             /\ Req("C18", good /\ alone /\ e.t < ch.lo => found \/ g.rough)
             /\ Req("C03", e.res = "ok" => e.k \notin DOMAIN g.tk)
      ch1   == IF ~known THEN g.ch
               ELSE [g.ch EXCEPT ![s.c].cand = IF g.rough /\ ~found THEN @ ELSE @ \ {e.v},
                                 ![s.c].taken = @ \/ found]
      dur   == IF known THEN ch.dur ELSE 0
      tk1   == IF e.res # "ok" THEN g.tk
               ELSE With(g.tk, e.k, [ site |-> IF known THEN ch.site ELSE s.key,
                                      lo |-> s.t + dur, hi |-> e.t + dur,
                                      taken |-> FALSE, cand |-> {} ])
  IN IF guard THEN { [g EXCEPT !.ch = ch1, !.tk = tk1, !.vs = Without(@, e.v)] } ELSE {}

\* A verification abandoned right away may or may not use the challenge up, one
\* that was given the time to get at it (e.settled) does.
VDrop(g, e) ==
  LET c  == g.vs[e.v].c
      g1 == [g EXCEPT !.vs = Without(@, e.v)]
  IN { IF /\ e.settled /\ c \in DOMAIN g.ch
          /\ ~g.ch[c].taken /\ g.ch[c].cand = {e.v} /\ e.t < g.ch[c].lo
       THEN [g1 EXCEPT !.ch[c].taken = TRUE] ELSE g1 }

-----------------------------------------------------------------------------
(* Validation of tokens *)

XCall(g, e) ==
  LET g1 == [g EXCEPT !.xs = With(@, e.x, [k |-> e.k, key |-> e.key, t |-> e.t])]
  IN { IF e.k \in DOMAIN g.tk THEN [g1 EXCEPT !.tk[e.k].cand = @ \cup {e.x}] ELSE g1 }

XRet(g, e) ==
  LET s     == g.xs[e.x]
      known == s.k \in DOMAIN g.tk
      tk    == g.tk[s.k]
      alone == ~tk.taken /\ tk.cand \subseteq {e.x}
      guard ==
        IF ~known
        THEN Req("C03", e.res # "true")
        ELSE /\ Req("C03", e.res = "true" => ~tk.taken /\ s.key = tk.site)
             /\ Req("C04", e.res = "true" => s.t <= tk.hi)
             /\ Req("C03", alone /\ s.key = tk.site /\ e.t < tk.lo => e.res = "true" \/ g.rough)
             /\ Req("C04", alone /\ s.key = tk.site /\ e.t < tk.lo => e.res = "true" \/ g.rough)
             /\ Req("C19", e.res # "err" \/ g.rough)
             /\ Req("C18", alone /\ s.key = tk.site /\ e.t < tk.lo => e.res = "true" \/ g.rough)
      tk1   == IF known /\ e.res = "true" THEN [g.tk EXCEPT ![s.k].taken = TRUE] ELSE g.tk
  IN IF guard THEN { [g EXCEPT !.tk = tk1, !.xs = Without(@, e.x)] } ELSE {}

XDrop(g, e) == { [g EXCEPT !.xs = Without(@, e.x)] }

-----------------------------------------------------------------------------

Next(g, e) ==
  CASE e.e = "reset"   -> { [G0 EXCEPT !.mayfull = e.mayfull, !.byname = e.byname] }
    [] e.e = "addsite" -> { [g EXCEPT !.sites = With(@, e.site, e.dur)] }
    [] e.e = "rmsite"  -> { [g EXCEPT !.sites = Without(@, e.site)] }
    [] e.e = "icall"   -> ICall(g, e)
    [] e.e = "iret"    -> IRet(g, e)
    [] e.e = "inone"   -> INone(g, e)
    [] e.e = "idrop"   -> IDrop(g, e)
    [] e.e = "mint"    -> Mint(g, e)
    [] e.e = "flood"   -> Flood(g, e)
    \* What fails meanwhile may or may not have had its effect (a failed call stays a
    \* candidate for having used up what it was about).
    [] e.e = "rough"   -> { [g EXCEPT !.rough = TRUE] }
    [] e.e = "calm"    -> { [g EXCEPT !.rough = FALSE] }
    [] e.e = "unwell"  -> IF "C18" \in Enforce THEN {} ELSE {g}
    [] e.e = "vcall"   -> VCall(g, e)
    [] e.e = "vret"    -> VRet(g, e)
    [] e.e = "vdrop"   -> VDrop(g, e)
    [] e.e = "xcall"   -> XCall(g, e)
    [] e.e = "xret"    -> XRet(g, e)
    [] e.e = "xdrop"   -> XDrop(g, e)
    [] e.e = "hang"    -> IF Enforce \cap {"C02", "C12", "C18", "C19"} = {} THEN {g} ELSE {}
    [] e.e = "panic"   -> {}
    [] OTHER           -> {}
=============================================================================
