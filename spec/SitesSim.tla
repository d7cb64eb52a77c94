------------------------------ MODULE SitesSim ------------------------------
(* Random walks of SitesImpl, written down as scripts for the replay driver: *)
(* one entry per step a user takes, "yield" for a step of an actor, "wait"   *)
(* for the clock.                                                            *)
EXTENDS SitesImpl, Json

CONSTANT Depth
VARIABLE hist

H(x) == hist' = Append(hist, x)
V(v) == "v" \o ToString(v)
L1 == << <<1, "1">> >>

SimNext ==
  \/ \E v \in 1..NV, n \in Names : Visit(v, n) /\ H(<<"vcall", V(v), n, "">>)
  \/ \E v \in 1..NV : VisitReturn(v) /\ H(<<"poll", V(v)>>)
  \/ \E n \in Names, d \in Dur : AddOp(n, d) /\ H(<<"add", n, d, <<<<1, RandomElement(1..1000000)>>>>, 0, FALSE, TRUE>>)
  \/ \E n \in Names : RemoveOp(n) /\ H(<<"remove", n, TRUE>>)
  \/ \E n \in Names, k \in Names : RenameOp(n, k) /\ H(<<"rename", n, k, TRUE>>)
  \/ \E n \in Names : RestoreOp(n) /\ H(<<"restore", 1, <<n>>, TRUE>>)
  \/ (MasterStep \/ GcStep) /\ H(<<"yield", 1>>)
  \/ \E c \in 1..NC : CounterStep(c) /\ H(<<"yield", 1>>)
  \/ \E tm \in timers : Fire(tm) /\ UNCHANGED hist
  \/ Tick /\ H(<<"wait", 1000, TRUE>>)
  \/ Look /\ hist # <<>> /\ hist[Len(hist)][1] # "look" /\ H(<<"look">>)

SimSpec == Init /\ hist = <<>> /\ [][SimNext]_<<vars, hist>>

Emit == (TLCGet("level") = Depth \/ ~ENABLED SimNext) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
