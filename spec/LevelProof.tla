----------------------------- MODULE LevelProof -----------------------------
(* The step of the defence level, for any number of levels and visitors (TLC *)
(* only reaches small ones). Step is written the way MCaptcha::add_visitor   *)
(* computes it (tighten_up / loosen_up, and back up when the traffic is      *)
(* still above the lower level's threshold); Rule is what property C06 says. *)
EXTENDS Integers, TLAPS

CONSTANTS N,    \* number of levels
          Thr   \* visitor threshold of each

ASSUME Levels == /\ N \in Nat /\ N >= 1
                 /\ Thr \in [1..N -> Nat]
                 /\ \A i, j \in 1..N : i < j => Thr[i] < Thr[j]

Up(l) == IF l < N THEN l + 1 ELSE l
Down(l) == IF l > 1 THEN l - 1 ELSE l

\* what add_visitor does at level l when the count, this visit included, is c
Step(l, c) ==
  IF c > Thr[l] THEN Up(l)
  ELSE IF c > Thr[Down(l)] THEN Up(Down(l)) ELSE Down(l)

\* what C06 asks for
Rule(l, c) ==
  IF c > Thr[l] THEN (IF l = N THEN N ELSE l + 1)
  ELSE IF l = 1 THEN 1
  ELSE IF c <= Thr[l - 1] THEN l - 1
  ELSE l

THEOREM StepIsRule == \A l \in 1..N, c \in Nat : Step(l, c) = Rule(l, c)
  BY Levels DEF Step, Rule, Up, Down

THEOREM StepInRange ==
  \A l \in 1..N, c \in Nat : /\ Step(l, c) \in 1..N
                             /\ Step(l, c) - l \in {-1, 0, 1}
  BY Levels DEF Step, Up, Down

-----------------------------------------------------------------------------
(* A site as a state machine: visits, batches of visitors leaving (the       *)
(* decrement never takes the count below zero), restores.                    *)
VARIABLES lvl, cnt, given
vars == << lvl, cnt, given >>

Init == lvl = 1 /\ cnt = 0 /\ given = 0
Visit == /\ cnt' = cnt + 1
         /\ lvl' = Step(lvl, cnt + 1)
         /\ given' = lvl'            \* the visitor gets the resulting level
Leave == /\ \E k \in Nat : cnt' = IF cnt >= k THEN cnt - k ELSE 0
         /\ UNCHANGED << lvl, given >>
Restore == /\ lvl' \in 1..N /\ cnt' \in Nat
           /\ UNCHANGED given
Next == Visit \/ Leave \/ Restore
Spec == Init /\ [][Next]_vars

Inv == lvl \in 1..N /\ cnt \in Nat /\ given \in 0..N

THEOREM Safe == Spec => []Inv
<1>1. Init => Inv
  BY Levels DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE Visit
    <3>1. cnt + 1 \in Nat
      BY DEF Inv
    <3>2. Step(lvl, cnt + 1) \in 1..N
      BY <3>1, StepInRange DEF Inv
    <3> QED
      BY <2>1, <3>1, <3>2, Levels DEF Visit, Inv
  <2>2. CASE Leave
    BY <2>2 DEF Leave, Inv
  <2>3. CASE Restore
    BY <2>3 DEF Restore, Inv
  <2>4. CASE UNCHANGED vars
    BY <2>4 DEF vars, Inv
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1> QED
  BY <1>1, <1>2, PTL DEF Spec

(* Under steady traffic (the count stays c) the level settles where it       *)
(* belongs and stays there: no oscillation.                                  *)
Settled(l, c) == /\ (c > Thr[l] => l = N)
                 /\ (l > 1 => c > Thr[l - 1])

THEOREM NoOscillation ==
  \A l \in 1..N, c \in Nat : Settled(l, c) => Step(l, c) = l
  BY Levels DEF Step, Up, Down, Settled

THEOREM Progress ==
  \A l \in 1..N, c \in Nat : ~Settled(l, c) => Step(l, c) # l
<1> SUFFICES ASSUME NEW l \in 1..N, NEW c \in Nat, ~Settled(l, c) PROVE Step(l, c) # l
  OBVIOUS
<1>1. CASE l = 1
  BY <1>1, Levels DEF Step, Up, Down, Settled
<1>2. CASE l > 1
  <2>1. l - 1 \in 1..N /\ l - 1 < l /\ Thr[l - 1] < Thr[l] /\ Thr[l] \in Nat /\ Thr[l - 1] \in Nat
    BY <1>2, Levels
  <2>2. CASE c > Thr[l]
    BY <1>2, <2>1, <2>2, Levels DEF Step, Up, Down, Settled
  <2>3. CASE ~(c > Thr[l])
    BY <1>2, <2>1, <2>3, Levels DEF Step, Up, Down, Settled
  <2> QED
    BY <2>2, <2>3
<1> QED
  BY <1>1, <1>2, Levels
=============================================================================
