------------------------------ MODULE QueueSim ------------------------------
(* Random walks of QueueImpl, written down as scripts for the replay driver: *)
(* what submitters, jobs and the owner of the queue do.                      *)
EXTENDS QueueImpl, Json

CONSTANT Depth
VARIABLE hist

H(x) == hist' = Append(hist, x)

SimNext ==
  \/ \E j \in Jobs, ip \in IPs, th \in Ths : Send(j, ip, th) /\ H(<<"submit", j, ip, TRUE>>)
  \/ \E j \in Jobs : (Return(j) /\ H(<<"ret">>)) \/ (Abandon(j) /\ H(<<"abandon", j>>))
  \/ (ManagerStep \/ ManagerJoin) /\ UNCHANGED hist
  \/ \E r \in Runners : (RunnerDone(r) /\ H(<<"open", rpc[r]>>))
  \/ \E r \in Runners : (RunnerRecv(r) \/ RunnerReport(r)) /\ UNCHANGED hist
  \/ DropCalled /\ Len(hist) > Depth \div 3 /\ H(<<"drop">>)
  \/ DropReturns /\ UNCHANGED hist
  \/ Look /\ H(<<"settle">>)

SimSpec == Init /\ hist = <<>> /\ [][SimNext]_<<vars, hist>>

Emit == (TLCGet("level") = Depth \/ ~ENABLED SimNext) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
