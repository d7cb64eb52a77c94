---------------------------- MODULE DefenseImpl -----------------------------
(* Design of the builders of libmcaptcha::defense: add_level keeps levels in *)
(* the order given and rejects a known threshold, build sorts them by        *)
(* threshold (a stable insertion sort here), looks for zero factors and      *)
(* compares neighbours; a defence is its levels and the index of the current *)
(* one.  gs: the observer states (DefenseObs) consistent with what was seen. *)
EXTENDS DefenseObs

CONSTANTS Vs, Ds,    \* thresholds and factors (single digits)
          NL,        \* number of levels given
          Bug

VARIABLES gs, given, tries, f
vars == <<gs, given, tries, f>>

Obs(e) == IF Enforce = {} THEN UNCHANGED gs ELSE gs' = UNION { Next(g, e) : g \in gs }
Bugs(b) == Bug = b
None == [levels |-> <<>>, cur |-> 0]

Init == /\ gs = IF Enforce = {} THEN {} ELSE UNION { Next(g, [e |-> "db_new", b |-> "b"]) : g \in Next(G0, [e |-> "reset"]) }
        /\ given = <<>> /\ tries = 0 /\ f = None

RECURSIVE Insert(_, _)
Insert(s, l) == IF s = <<>> \/ Less(l.v, Head(s).v) THEN <<l>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), l)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

Add(v, d) ==
  /\ tries < NL /\ tries' = tries + 1
  /\ LET l   == [v |-> <<v>>, d |-> <<d>>]
         dup == IF Bugs("lastdup") THEN given # <<>> /\ given[Len(given)].v = l.v ELSE Dup(given, l)
     IN /\ given' = IF dup /\ ~Bugs("keepdup") THEN given ELSE Append(given, l)
        /\ Obs([e |-> "db_add", b |-> "b", v |-> l.v, d |-> l.d, res |-> IF dup THEN "DuplicateVisitorCount" ELSE "ok"])
  /\ UNCHANGED f

Build ==
  LET s    == IF Bugs("nosort") THEN given ELSE Sort(given)
      worse(i) == IF Bugs("strict") THEN ~Less(s[i].d, s[i + 1].d) ELSE Less(s[i + 1].d, s[i].d)
      last == IF Bugs("shortcheck") THEN Len(s) - 2 ELSE Len(s) - 1
      res  == CASE s = <<>> -> "LevelEmpty"
                [] ~Bugs("zerook") /\ (\E i \in 1..Len(s) : Zero(s[i].d)) -> "DifficultyFactorZero"
                [] \E i \in 1..last : worse(i) -> "DecreaseingDifficultyFactor"
                [] OTHER -> "ok"
  IN /\ f' = IF res = "ok" THEN [levels |-> s, cur |-> 1] ELSE f
     /\ given' = s
     /\ Obs([e |-> "db_build", b |-> "b", f |-> "f", res |-> res, levels |-> s])
     /\ UNCHANGED tries

Say(x, op) == LET l == x.levels[x.cur]
                  v == IF Bugs("vasd") THEN l.d ELSE l.v
              IN Obs([e |-> "df", f |-> "f", op |-> op, d |-> l.d, v |-> v, cd |-> l.d, cv |-> l.v, levels |-> x.levels])

Ops == <<"up", "down", "max", "min", "serde">>
N == Len(f.levels)
To(op) ==
  CASE op = "up"   -> IF f.cur < N THEN f.cur + 1 ELSE IF Bugs("wrap") THEN 1 ELSE f.cur
    [] op = "down" -> IF f.cur > 1 THEN (IF Bugs("tobottom") THEN 1 ELSE f.cur - 1) ELSE f.cur
    [] op = "max"  -> N
    [] op = "min"  -> 1
    [] op = "serde" -> IF Bugs("serdereset") THEN 1 ELSE f.cur
Move(k) == /\ f # None /\ f' = [f EXCEPT !.cur = To(Ops[k])] /\ Say(f', Ops[k]) /\ UNCHANGED <<given, tries>>

Step2 == (\E v \in Vs, d \in Ds : Add(v, d)) \/ Build \/ (\E k \in 1..5 : Move(k))
Spec == Init /\ [][Step2]_vars

Conforms == Enforce = {} \/ gs # {}
InRange == f # None => f.cur \in 1..N
=============================================================================
