------------------------------ MODULE SitesObs ------------------------------
(* What a user of the embedded registry of sites may observe: sites are      *)
(* added, visited, renamed, removed, snapshotted, restored, and cleaned up   *)
(* behind the user's back when idle.  Next(g, e) is the set of ghost states  *)
(* that observing e may lead to, empty when e breaks a property in Enforce.  *)
(*                                                                           *)
(* A cleanup is not an event: whether an idle site is still there is left    *)
(* open until an observation tells, and operations whose effect depends on   *)
(* it branch (Cases below).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce
Req(p, c) == (p \in Enforce) => c

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> x]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* gc     cleanup period in ms, -1: none in a lifetime                       *)
(* sites  name -> levels: sequence of <<threshold, difficulty>>,             *)
(*                dur: ms, lvl: index of the current level,                  *)
(*                vis: visitors counted, sequence of <<deadline, number>>,   *)
(*                acc: accessed since it got its name? "no" | "may" | "must",*)
(*                since: idle since, once vis is over; uid: its identity     *)
(* pend   visits called and not returned                                     *)
(* snaps  snapshots taken: index -> data                                     *)
(* last   what a snapshot at time at must say of sites nothing was done to   *)
(* dead   names of sites that a cleanup round is about to take from the      *)
(*        registry, having found them idle, at time dat                      *)
(* halt   sites whose counter was stopped from outside: name -> acc, since:   *)
(*        they can't be visited any more, and are cleaned up like idle ones  *)
(* ds     snapshots being taken: t when called, full: names of sites nothing *)
(*        was done to since, may: names that were there at some time since   *)
G0 == [ gc |-> -1, slack |-> 0, sites |-> Empty, pend |-> Empty, snaps |-> Empty,
        at |-> -1, last |-> Empty, halt |-> Empty, dat |-> -1, dead |-> {}, uid |-> 1, ds |-> Empty ]

-----------------------------------------------------------------------------
(* Counting *)

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + Sum(Tail(q))
Live(s, t)  == SelectSeq(s.vis, LAMBDA x : x[1] > t)
Count(s, t) == Sum(Live(s, t))

\* the last visitor left at
IdleSince(s) ==
  LET ds == { s.vis[n][1] : n \in DOMAIN s.vis }
  IN IF ds = {} THEN s.since ELSE Max(s.since, CHOOSE d \in ds : \A x \in ds : d >= x)

\* forget what is over
Trim(s, t) ==
  LET l == Live(s, t) IN
  IF Len(l) = Len(s.vis) THEN s
  ELSE IF l = <<>> THEN [s EXCEPT !.since = IdleSince(s), !.vis = <<>>]
  ELSE [s EXCEPT !.vis = l]

-----------------------------------------------------------------------------
(* Cleanup *)

\* may the site have been removed by now, must it have been
MayGo(g, s, t)  == g.gc >= 0 /\ s.acc # "no" /\ Count(s, t) = 0
MustGo(g, s, t) == g.gc >= 0 /\ s.acc = "must" /\ Count(s, t) = 0
                   /\ t > IdleSince(s) + g.gc + g.slack

\* the property that wants a site to be there
Keep(g) == IF g.gc >= 0 THEN "C09" ELSE "C08"

\* Seen present / absent at t: is that allowed
PresentOk(g, n, t) ==
  IF n \in DOMAIN g.sites THEN Req("C10", ~MustGo(g, g.sites[n], t))
  ELSE IF n \in DOMAIN g.halt
  THEN Req("C10", ~(g.gc >= 0 /\ g.halt[n].acc = "must" /\ t > g.halt[n].since + g.gc + g.slack))
  ELSE Req("C08", FALSE) /\ Req("C09", FALSE)
AbsentOk(g, n, t) ==
  n \in DOMAIN g.sites => Req(Keep(g), MayGo(g, g.sites[n], t)) /\ Req("C11", MayGo(g, g.sites[n], t))

Dead(g, t) == IF g.dat = t THEN g.dead ELSE {}
Bury(g, n, t, D) == [g EXCEPT !.sites = Without(@, n), !.dat = t, !.dead = D]

\* the ways things may be when something is done to n
Cases(g, n, t) ==
  IF n \in DOMAIN g.sites /\ MayGo(g, g.sites[n], t)
  THEN { g, Bury(g, n, t, Dead(g, t) \cup {n}) }
  ELSE {g}

-----------------------------------------------------------------------------
(* What is done to one site leaves every other as it is: g.last predicts a   *)
(* snapshot taken at the same time                                           *)

Know(g, t) == IF g.at = t THEN g ELSE [g EXCEPT !.at = t, !.last = Empty]
Touch(g, n, t) == [Know(g, t) EXCEPT !.last = Without(@, n)]

\* the level after a visit, from the level before and the count with the visit
NewLevel(lv, lvl, count) ==
  IF count > lv[lvl][1] THEN Min(lvl + 1, Len(lv))
  ELSE IF lvl > 1 /\ count <= lv[lvl - 1][1] THEN lvl - 1
  ELSE lvl

-----------------------------------------------------------------------------
(* Operations *)

Data(d) == [ levels |-> d.levels, dur |-> d.dur, lvl |-> d.lvl, count |-> d.count ]

Site(g, d, t) ==
  [ levels |-> d.levels, dur |-> d.dur, lvl |-> d.lvl,
    vis |-> IF d.count > 0 THEN << <<t + d.dur, d.count>> >> ELSE <<>>,
    acc |-> "no", since |-> t, uid |-> g.uid ]

Put(g, n, s) == [g EXCEPT !.sites = With(@, n, s), !.uid = @ + 1]

Add(g, e) ==
  { LET h == Put(g, e.site, Site(g, e, e.t))
    IN [Know(h, e.t) EXCEPT !.last = With(@, e.site, Data(e)), !.dead = @ \ {e.site},
                              !.halt = Without(@, e.site)] }

Halt(g, e) ==
  IF e.site \notin DOMAIN g.sites THEN {g}
  ELSE { [Touch(g, e.site, e.t) EXCEPT !.sites = Without(@, e.site),
                                       !.halt = With(@, e.site, [acc |-> g.sites[e.site].acc, since |-> e.t])] }

Remove(g, e) == { [g EXCEPT !.sites = Without(@, e.site), !.halt = Without(@, e.site), !.last = Without(@, e.site), !.dead = @ \ {e.site}] }

\* (a site that is about to be cleaned up takes the new name with it)
Rename(g, e) ==
  IF e.from \in DOMAIN g.halt
  \* (if it's still there)
  THEN { [g EXCEPT !.halt = Without(@, e.from)],
         [Touch(g, e.to, e.t) EXCEPT !.sites = Without(@, e.to),
                                     !.halt = With(Without(@, e.from), e.to, [acc |-> "no", since |-> e.t])] }
  ELSE
  UNION { IF e.from \notin DOMAIN h.sites
          THEN {h} \cup IF e.from \in Dead(h, e.t)
                        THEN { Bury(h, e.to, e.t, (Dead(h, e.t) \ {e.from}) \cup {e.to}) } ELSE {}
          ELSE LET s == [Trim(h.sites[e.from], e.t) EXCEPT !.acc = "no", !.since = e.t]
                   k == Know(h, e.t)
               IN { [k EXCEPT !.sites = With(Without(@, e.from), e.to, s),
                              !.dead = @ \ {e.to}, !.halt = Without(@, e.to),
                              !.last = IF e.from \in DOMAIN @ THEN With(Without(@, e.from), e.to, @[e.from])
                                       ELSE Without(@, e.to)] }
        : h \in Cases(g, e.from, e.t) }

(* A visit is a call and a return. The site is looked up, and the visit      *)
(* counted, when it is called (calls reach the registry in order).           *)
NoPend == [ found |-> FALSE, uid |-> 0, diff |-> "", dur |-> 0, may |-> FALSE, must |-> FALSE, site |-> "",
            before |-> Empty, after |-> Empty ]

VCall(g, e) ==
  LET n == e.site
      absent(h) == [h EXCEPT !.pend = With(@, e.v, [NoPend EXCEPT !.site = n]),
                             !.halt = IF n \in DOMAIN @ THEN [@ EXCEPT ![n].acc = "must"] ELSE @]
      present(h) ==
        LET s0  == Trim(h.sites[n], e.t)
            lvl == NewLevel(s0.levels, s0.lvl, Count(s0, e.t) + 1)
            s1  == [s0 EXCEPT !.lvl = lvl, !.acc = "must", !.vis = Append(@, <<e.t + s0.dur, 1>>)]
        IN [Touch(h, n, e.t) EXCEPT
              !.sites = With(@, n, s1),
              !.pend = With(@, e.v, [ found |-> TRUE, uid |-> s1.uid, diff |-> s1.levels[lvl][2], dur |-> s1.dur,
                                      may |-> MayGo(h, s0, e.t), must |-> MustGo(h, s0, e.t), site |-> n,
                                      before |-> [s0 EXCEPT !.acc = "may"], after |-> s1 ])]
  IN { IF n \in DOMAIN h.sites THEN present(h) ELSE absent(h) : h \in Cases(g, n, e.t) }

Alive(g, uid) == \E n \in DOMAIN g.sites : g.sites[n].uid = uid

VRet(g, e) ==
  LET p  == g.pend[e.v]
      g1 == [g EXCEPT !.pend = Without(@, e.v)]
      refused == Req("C08", FALSE) /\ Req("C09", FALSE) /\ Req("C11", FALSE)
  IN CASE e.res = "ok" ->
            IF ~p.found
            THEN IF Req("C08", FALSE) /\ Req("C09", FALSE) THEN {g1} ELSE {}
            ELSE IF /\ Req("C06", e.diff = p.diff)
                    /\ Req("C08", e.dur \in {p.dur, -1})
                    /\ Req("C10", ~p.must)
                    /\ Req("C11", e.diff = p.diff /\ e.dur \in {p.dur, -1})
                 THEN {g1} ELSE {}
       [] e.res = "none" ->
            IF p.found /\ ~refused THEN {} ELSE {g1}
       [] OTHER ->  \* the site vanished under the visit: it was idle, or removed on purpose
            IF p.found /\ Alive(g, p.uid) /\ ~refused THEN {} ELSE {g1}

\* the caller went away: the visit counts or it doesn't
VDrop(g, e) ==
  LET p  == g.pend[e.v]
      g1 == [g EXCEPT !.pend = Without(@, e.v)]
  IN {g1} \cup
     IF p.found /\ p.site \in DOMAIN g.sites /\ g.sites[p.site] = p.after
     THEN { [g1 EXCEPT !.sites[p.site] = p.before] } ELSE {}

\* Visits answered one after the other, e.runs: sequence of <<difficulty, how many in a row>>.
RECURSIVE Climb(_, _, _, _)
Climb(lv, lvl, runs, cnt) ==
  IF runs = <<>> THEN [ok |-> TRUE, lvl |-> lvl]
  ELSE LET r == Head(runs)
           l == NewLevel(lv, lvl, cnt + 1)
           \* as many as stay at this level, if this one does
           k == IF l # lvl THEN 1 ELSE IF l = Len(lv) THEN r[2] ELSE Max(1, Min(r[2], lv[l][1] - cnt))
       IN IF lv[l][2] # r[1] THEN [ok |-> FALSE, lvl |-> l]
          ELSE Climb(lv, l, IF k = r[2] THEN Tail(runs) ELSE << <<r[1], r[2] - k>> >> \o Tail(runs), cnt + k)

Visits(g, e) ==
  LET n == e.site IN
  IF ~PresentOk(g, n, e.t) THEN {}
  ELSE IF n \notin DOMAIN g.sites THEN {g}
  ELSE LET s0 == Trim(g.sites[n], e.t)
           c  == Climb(s0.levels, s0.lvl, e.runs, Count(s0, e.t))
       IN IF /\ Req("C06", c.ok) /\ Req("C11", c.ok)
             /\ Req("C08", e.dur = s0.dur)
          THEN { [Touch(g, n, e.t) EXCEPT
                    !.sites = With(@, n, [s0 EXCEPT !.lvl = c.lvl, !.acc = "must",
                                                    !.vis = Append(@, <<e.t + s0.dur, e.n>>)])] }
          ELSE {}

\* looked up: e.found; the lookup may count as an access
Get(g, e) ==
  LET n == e.site IN
  IF e.found
  THEN IF PresentOk(g, n, e.t)
       THEN { IF n \in DOMAIN g.halt
              THEN [g EXCEPT !.halt[n].acc = IF @ = "must" THEN "must" ELSE "may"]
              ELSE IF n \in DOMAIN g.sites
              THEN [g EXCEPT !.sites[n].acc = IF @ = "must" THEN "must" ELSE "may"] ELSE g }
       ELSE {}
  ELSE IF AbsentOk(g, n, e.t) THEN { [g EXCEPT !.sites = Without(@, n), !.halt = Without(@, n)] } ELSE {}

\* visitors of one site, asked directly
CountOf(g, e) ==
  IF e.site \in DOMAIN g.sites => Req("C05", e.count = Count(g.sites[e.site], e.t)) THEN {g} ELSE {}

(* A snapshot: e.data = sequence of [site, levels, dur, lvl, count].         *)
ByName(data) == [ n \in { data[k].site : k \in DOMAIN data } |->
                  Data(data[CHOOSE k \in DOMAIN data : data[k].site = n]) ]

Dump(g, e) ==
  LET D == ByName(e.data)
      k == Know(g, e.t)
  IN IF /\ Req("C11", Cardinality(DOMAIN D) = Len(e.data))
        /\ \A n \in DOMAIN D : PresentOk(g, n, e.t)
        /\ \A n \in DOMAIN g.sites \ DOMAIN D : AbsentOk(g, n, e.t)
        /\ Req("C11", DOMAIN D \subseteq DOMAIN g.sites)
        /\ \A n \in DOMAIN D \cap DOMAIN g.sites :
             LET s == g.sites[n] IN
             /\ Req("C05", D[n].count = Count(s, e.t))
             /\ Req("C06", D[n].lvl = s.lvl)
             /\ Req("C08", D[n].levels = s.levels /\ D[n].dur = s.dur)
             /\ Req("C08", n \in DOMAIN k.last => D[n] = k.last[n])
             /\ Req("C09", D[n].count >= Count(s, e.t))
             /\ Req("C11", D[n] = [levels |-> s.levels, dur |-> s.dur, lvl |-> s.lvl, count |-> Count(s, e.t)])
     THEN { [k EXCEPT !.sites = [n \in DOMAIN @ \cap DOMAIN D |-> Trim(@[n], e.t)],
                      !.last = D, !.snaps = With(@, e.snap, D)] }
     ELSE {}

(* A snapshot taken while other things go on: sites that nothing was done to *)
(* meanwhile are in it as they are.                                          *)
DCall(g, e) ==
  { [g EXCEPT !.ds = With(@, e.d, [ t |-> e.t, may |-> DOMAIN g.sites,
        full |-> DOMAIN g.sites \ { g.pend[v].site : v \in DOMAIN g.pend } ])] }

Touched(g, N) ==
  IF DOMAIN g.ds = {} THEN g
  ELSE [g EXCEPT !.ds = [ d \in DOMAIN @ |-> [@[d] EXCEPT !.full = @ \ N, !.may = @ \cup N] ]]

DRet(g, e) ==
  LET D == ByName(e.data)
      s == g.ds[e.d]
      exact == e.t = s.t
  IN IF /\ Req("C11", Cardinality(DOMAIN D) = Len(e.data) /\ DOMAIN D \subseteq s.may)
        /\ \A n \in s.full \cap DOMAIN g.sites :
             LET x == g.sites[n] IN
             IF n \in DOMAIN D
             THEN /\ Req("C11", D[n].levels = x.levels /\ D[n].dur = x.dur /\ D[n].lvl = x.lvl)
                  \* (a visitor whose time is up this very instant may still be counted)
                  /\ exact => LET ok == D[n].count \in Count(x, e.t)..Count(x, e.t - 1)
                              IN Req("C11", ok) /\ Req("C05", ok)
             ELSE AbsentOk(g, n, e.t)
     THEN { [g EXCEPT !.ds = Without(@, e.d)] } ELSE {}

(* A snapshot (or some sites of it, e.want) is loaded, having been through   *)
(* its serialised form: e.data is what came out of that.  The sites get its  *)
(* state, in place if they are there.                                        *)
RestoreOne(g, n, d, t) ==
  UNION { IF n \in DOMAIN h.sites
          THEN { [h EXCEPT !.sites = With(@, n,
                   [ Site(h, d, t) EXCEPT !.acc = IF h.sites[n].acc = "must" THEN "must" ELSE "may",
                                          !.uid = h.sites[n].uid ])] }
          ELSE { [Put(h, n, [Site(h, d, t) EXCEPT !.acc = IF n \in Dead(h, t) \cup DOMAIN h.halt THEN "may" ELSE "no"])
                   EXCEPT !.halt = Without(@, n)] }
        : h \in Cases(g, n, t) }
RECURSIVE RestoreAll(_, _, _, _)
RestoreAll(gs, D, N, t) ==
  IF N = {} THEN gs
  ELSE LET n == CHOOSE x \in N : TRUE
       IN RestoreAll(UNION { RestoreOne(h, n, D[n], t) : h \in gs }, D, N \ {n}, t)

Restore(g, e) ==
  LET D == ByName(e.data)
      S == g.snaps[e.snap]
      want == IF e.all THEN DOMAIN S ELSE { e.want[k] : k \in DOMAIN e.want } \cap DOMAIN S
      g1 == [Know(g, e.t) EXCEPT !.last = [n \in DOMAIN @ \ DOMAIN D |-> @[n]]]
  IN IF Req("C11", DOMAIN D = want /\ \A n \in want : D[n] = S[n])
     THEN RestoreAll({g1}, D, DOMAIN D, e.t) ELSE {}

(* Lots of sites come, are visited once each (e.own: those that answered as  *)
(* configured), are loaded from a snapshot, and are removed or left to be    *)
(* cleaned up.  e.there: how many of them three snapshots hold as they are.  *)
Town(g, e) ==
  IF /\ Req("C08", e.own = e.n /\ (e.idle \/ e.left = 0) /\ \A k \in DOMAIN e.there : e.there[k] = e.n)
     /\ Req("C09", e.own = e.n /\ \A k \in DOMAIN e.there : e.there[k] = e.n)
     /\ Req("C10", e.idle /\ g.gc >= 0 => e.left = 0)
     /\ Req("C11", \A k \in DOMAIN e.there : e.there[k] = e.n)
  THEN {g} ELSE {}

-----------------------------------------------------------------------------
\* the sites an event is about
About(g, e) ==
  CASE e.e \in {"add", "remove", "halt", "vcall", "visits"} -> {e.site}
    [] e.e = "rename"  -> {e.from, e.to}
    [] e.e = "restore" -> { e.data[k].site : k \in DOMAIN e.data }
    [] e.e \in {"vret", "vdrop"} -> IF e.v \in DOMAIN g.pend THEN {g.pend[e.v].site} ELSE {}
    [] OTHER -> {}

Step(g, e) ==
  CASE e.e = "reset"   -> { [G0 EXCEPT !.gc = e.gc, !.slack = e.slack] }
    [] e.e = "fresh"   -> { [G0 EXCEPT !.gc = e.gc, !.slack = g.slack, !.snaps = g.snaps, !.uid = g.uid] }
    [] e.e = "add"     -> Add(g, e)
    [] e.e = "remove"  -> Remove(g, e)
    [] e.e = "halt"    -> Halt(g, e)
    [] e.e = "rename"  -> Rename(g, e)
    [] e.e = "vcall"   -> VCall(g, e)
    [] e.e = "vret"    -> VRet(g, e)
    [] e.e = "vdrop"   -> VDrop(g, e)
    [] e.e = "visits"  -> Visits(g, e)
    [] e.e = "get"     -> Get(g, e)
    [] e.e = "count"   -> CountOf(g, e)
    [] e.e = "dump"    -> Dump(g, e)
    [] e.e = "dcall"   -> DCall(g, e)
    [] e.e = "dret"    -> DRet(g, e)
    [] e.e = "restore" -> Restore(g, e)
    [] e.e = "town"    -> Town(g, e)
    \* an operation other than a visit was answered (e.ok) or not
    [] e.e = "ack"     -> IF e.ok THEN {g} ELSE {}
    \* the registry is gone, or doesn't answer
    [] e.e = "dead"    -> {}
    [] e.e = "hang"    -> {}
    [] OTHER           -> {}

Next(g, e) == Step(Touched(g, About(g, e)), e)
=============================================================================
