----------------------------- MODULE DefenseObs -----------------------------
(* What a user of the configuration builders may observe: levels, defences   *)
(* and sites are put together, accepted or rejected; an accepted defence is  *)
(* tightened and loosened.  Next(g, e) is the set of ghost states that       *)
(* observing e may lead to from g; empty when e breaks a property in Enforce.*)
(*                                                                           *)
(* Numbers are sequences of digits (of base 65536 in traces), most            *)
(* significant first, of equal length                                        *)
(* (u32 and u64 don't fit TLC's integers).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Enforce

Req(p, c) == (p \in Enforce) => c
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> x]
Range(s) == { s[i] : i \in 1..Len(s) }

RECURSIVE Less(_, _)
Less(a, b) == a # <<>> /\ (Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b))))
Zero(a) == \A i \in 1..Len(a) : a[i] = 0

G0 == [ lb |-> Empty,     \* level builders
        db |-> Empty,     \* defence builders: name -> levels accepted so far
        df |-> Empty,     \* defences: name -> [levels, cur]
        mb |-> Empty,     \* site builders
      mc |-> Empty ]    \* sites in use: name -> [x: defence, n: visitors, dur]

-----------------------------------------------------------------------------
(* Levels: pairs [v, d] *)

L(e) == [v |-> e.v, d |-> e.d]

\* threshold and factor are set in any order, any number of times; a zero
\* factor is rejected and changes nothing
LbFactor(g, e) ==
  IF Req("C07", (e.res = "ok") <=> ~Zero(e.d)) /\ Req("C07", e.res # "ok" => e.res = "DifficultyFactorZero")
  THEN { IF e.res = "ok" THEN [g EXCEPT !.lb[e.b].d = e.d] ELSE g } ELSE {}

LbBuild(g, e) ==
  LET b == g.lb[e.b]
      defect == (IF b.v = <<>> THEN {"SetVisitorThreshold"} ELSE {})
                \cup (IF b.d = <<>> THEN {"SetDifficultyFactor"} ELSE {})
  IN IF IF defect = {} THEN Req("C07", e.res = "ok" /\ e.v = b.v /\ e.d = b.d)
        ELSE Req("C07", e.res \in defect)
     THEN {g} ELSE {}

-----------------------------------------------------------------------------
(* Defences *)

Dup(ls, l) == \E x \in Range(ls) : x.v = l.v

DbAdd(g, e) ==
  LET dup == Dup(g.db[e.b], L(e))
  IN IF Req("C07", IF dup THEN e.res = "DuplicateVisitorCount" ELSE e.res = "ok")
     THEN { IF e.res = "ok" THEN [g EXCEPT !.db[e.b] = Append(@, L(e))] ELSE g } ELSE {}

\* the levels ls, in ascending order of thresholds
Sorted(ls, s) ==
  /\ Len(s) = Len(ls) /\ Range(s) = Range(ls)
  /\ \A i \in 1..Len(s) - 1 : Less(s[i].v, s[i + 1].v)

Defects(ls) ==
  (IF ls = <<>> THEN {"LevelEmpty"} ELSE {})
  \cup (IF \E x \in Range(ls) : Zero(x.d) THEN {"DifficultyFactorZero"} ELSE {})
  \cup (IF \E x, y \in Range(ls) : Less(x.v, y.v) /\ Less(y.d, x.d) THEN {"DecreaseingDifficultyFactor"} ELSE {})

DbBuild(g, e) ==
  LET ls == g.db[e.b]
      ok == Defects(ls) = {}
  IN IF IF ok THEN Req("C07", e.res = "ok" /\ Sorted(ls, e.levels)) ELSE Req("C07", e.res \in Defects(ls))
     THEN { IF e.res = "ok" THEN [g EXCEPT !.df = With(@, e.f, [levels |-> e.levels, cur |-> 1])] ELSE g } ELSE {}

\* what an accepted defence says about itself: e.d, e.v by the plain getters,
\* e.cd, e.cv by current_level, e.levels what it converts to
Told(x, e) ==
  /\ e.d = x.levels[x.cur].d /\ e.v = x.levels[x.cur].v
  /\ e.cd = x.levels[x.cur].d /\ e.cv = x.levels[x.cur].v
  /\ e.levels = x.levels

Step(x, op) ==
  CASE op = "up"   -> IF x.cur < Len(x.levels) THEN x.cur + 1 ELSE x.cur
    [] op = "down" -> IF x.cur > 1 THEN x.cur - 1 ELSE x.cur
    [] op = "max"  -> Len(x.levels)
    [] op = "min"  -> 1
    \* taken through serialisation, or just looked at
    [] op \in {"serde", "look"} -> x.cur

DfOp(g, e) ==
  LET x == [g.df[e.f] EXCEPT !.cur = Step(g.df[e.f], e.op)]
  IN IF Req("C07", e.op # "panic" /\ Told(x, e)) THEN { [g EXCEPT !.df[e.f] = x] } ELSE {}

-----------------------------------------------------------------------------
(* Sites *)

MbBuild(g, e) ==
  LET b == g.mb[e.b]
      defect == (IF b.f = "" \/ b.dur = <<>> THEN {"PleaseSetValue"} ELSE {})
                \cup (IF b.dur # <<>> /\ Zero(b.dur) THEN {"CaptchaDurationZero"} ELSE {})
  IN IF IF defect = {}
        THEN Req("C07", e.res = "ok" /\ e.dur = b.dur /\ e.visitors = 0 /\ Told(b.x, e)
                        \* and as the request sent to Redis
                        /\ e.cdur = b.dur /\ e.clevels = b.x.levels
                        \* and as the answer to a visit
                        /\ e.adur = b.dur /\ e.ad = b.x.levels[b.x.cur].d)
        ELSE Req("C07", e.res \in defect)
     THEN {g} ELSE {}

-----------------------------------------------------------------------------
(* A site in use: visits raise its count and move its level, departures      *)
(* lower the count.  (Counts fit TLC's integers, thresholds don't.)          *)

Digits(n) == <<n \div 65536, n % 65536>>
Above(n, thr) == Less(thr, Digits(n))

\* the level after a visit that makes the count n
Follow(x, n) ==
  CASE Above(n, x.levels[x.cur].v) -> IF x.cur < Len(x.levels) THEN x.cur + 1 ELSE x.cur
    [] x.cur > 1 /\ ~Above(n, x.levels[x.cur].v) /\ ~Above(n, x.levels[x.cur - 1].v) -> x.cur - 1
    [] OTHER -> x.cur

McNew(g, e) == { [g EXCEPT !.mc = With(@, e.m, [x |-> g.mb[e.b].x, n |-> 0, dur |-> g.mb[e.b].dur])] }
\* brought into some state (by way of its serialised form)
McSet(g, e) == { [g EXCEPT !.mc[e.m].n = e.k, !.mc[e.m].x.cur = e.cur] }

McOp(g, e) ==
  LET m  == g.mc[e.m]
      n1 == CASE e.op = "visit" -> m.n + 1
              [] e.op = "dec"   -> IF e.k > m.n THEN 0 ELSE m.n - e.k
              [] OTHER          -> m.n
      c1 == IF e.op = "visit" THEN Follow(m.x, n1) ELSE m.x.cur
      x1 == [m.x EXCEPT !.cur = c1]
      same == { c \in 1..Len(m.x.levels) : m.x.levels[c].v = e.v }
      ok == /\ Req("C05", e.n = n1 /\ e.dur = m.dur)
            /\ Req("C06", Told(x1, e) /\ e.gd = x1.levels[c1].d)
            /\ Req("C06", e.n = n1)
  IN IF ok /\ (same # {} \/ "C06" \notin Enforce)
     \* enforcing only the count, the level is whatever it's said to be
     THEN { [g EXCEPT !.mc[e.m] = [@ EXCEPT !.n = e.n, !.x.cur = IF "C06" \in Enforce THEN c1
                                                              ELSE IF same # {} THEN CHOOSE c \in same : TRUE ELSE 1]] }
     ELSE {}

-----------------------------------------------------------------------------

Next(g, e) ==
  CASE e.e = "reset"    -> {G0}
    [] e.e = "lb_new"   -> { [g EXCEPT !.lb = With(@, e.b, [v |-> <<>>, d |-> <<>>])] }
    [] e.e = "lb_v"     -> { [g EXCEPT !.lb[e.b].v = e.v] }
    [] e.e = "lb_d"     -> LbFactor(g, e)
    [] e.e = "lb_build" -> LbBuild(g, e)
    [] e.e = "db_new"   -> { [g EXCEPT !.db = With(@, e.b, <<>>)] }
    [] e.e = "db_add"   -> DbAdd(g, e)
    [] e.e = "db_build" -> DbBuild(g, e)
    [] e.e = "df"       -> DfOp(g, e)
    [] e.e = "mb_new"   -> { [g EXCEPT !.mb = With(@, e.b, [f |-> "", x |-> [cur |-> 0], dur |-> <<>>])] }
    [] e.e = "mb_def"   -> { [g EXCEPT !.mb[e.b].f = e.f, !.mb[e.b].x = g.df[e.f]] }
    [] e.e = "mb_dur"   -> { [g EXCEPT !.mb[e.b].dur = e.dur] }
    [] e.e = "mb_build" -> MbBuild(g, e)
    [] e.e = "mc_new"   -> McNew(g, e)
    [] e.e = "mc_set"   -> McSet(g, e)
    [] e.e = "mc"       -> McOp(g, e)
    [] e.e = "panic"    -> IF Enforce \cap {"C05", "C06", "C07"} # {} THEN {} ELSE {g}
    [] OTHER            -> {}
=============================================================================
