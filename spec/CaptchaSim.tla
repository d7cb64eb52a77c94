----------------------------- MODULE CaptchaSim -----------------------------
(* Random walks of CaptchaImpl, written down as scripts for the replay       *)
(* driver: one entry per step a caller takes, "yield" for a step of the      *)
(* cache actor, "wait" for the clock.                                        *)
EXTENDS CaptchaImpl, Json

VARIABLE hist
SimDur == [s \in Sites |-> IF s = "a" THEN 1 ELSE 2]

H(x) == hist' = Append(hist, x)
I(i) == "i" \o ToString(i)
V(v) == "v" \o ToString(v)
X(x) == "x" \o ToString(x)
Kind(good) == IF good THEN "good" ELSE RandomElement({"low", "forged", "near", "other", "nonce"})
Tok(k) == IF k = 99 THEN "guess" ELSE V(k - 100)

SimNext ==
  \/ \E i \in Chal, s \in Sites : IssueStart(i, s) /\ H(<<"issue", I(i), s>>)
  \/ \E i \in Chal : (IssueCache(i) \/ IssueReturn(i)) /\ H(<<"poll", I(i)>>)
  \/ \E i \in Chal : IssueDrop(i) /\ H(<<"drop", I(i)>>)
  \/ \E v \in 1..NV, c \in Chal, k \in Sites, good \in BOOLEAN :
        VerifyStart(v, c, k, good)
        /\ H(<<"verify", V(v), I(c), k, Kind(good), "ip" \o ToString(v % 2), I(1)>>)
  \/ \E v \in 1..NV : (VerifyGot(v) \/ VerifyVerdict(v) \/ VerifyReturn(v)) /\ H(<<"poll", V(v)>>)
  \/ \E v \in 1..NV : VerifyRun(v) /\ H(<<"yield", 1>>)
  \/ \E v \in 1..NV : VerifyDrop(v) /\ H(<<"drop", V(v)>>)
  \/ \E x \in 1..NX, k \in Tokens, key \in Sites :
        ValidateStart(x, k, key) /\ H(<<"validate", X(x), Tok(k), key>>)
  \/ \E x \in 1..NX : ValidateReturn(x) /\ H(<<"poll", X(x)>>)
  \/ \E x \in 1..NX : ValidateDrop(x) /\ H(<<"drop", X(x)>>)
  \/ Cache /\ H(<<"yield", RandomElement({1, 2, 5})>>)
  \/ Tick /\ H(<<"wait", 1000>>)
  \/ \E tm \in timers : Fire(tm) /\ UNCHANGED hist

SimSpec == Init /\ hist = <<>> /\ [][SimNext]_<<vars, hist>>

\* write the walk down when it has reached its length or cannot go on
CONSTANT Depth
Emit == (TLCGet("level") = Depth \/ ~ENABLED SimNext) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
