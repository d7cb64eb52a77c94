----------------------------- MODULE DefenseTrace -----------------------------
(* Is the recorded trace (one JSON event per line, file named by the         *)
(* environment variable TRACE) a behaviour that DefenseObs allows?              *)
EXTENDS DefenseObs, Json, IOUtils

VARIABLES i, g

Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == i = 1 /\ g = G0
TNext == /\ i <= Len(Trace)
         /\ \E g2 \in Next(g, Trace[i]) : g' = g2
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<i, g>>

\* every event was accepted along some branch
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
