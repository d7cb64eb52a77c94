------------------------------ MODULE QueueMC -------------------------------
EXTENDS QueueImpl
MCEnforce == {"C12", "C13", "C14", "C15"}
Sym == Permutations(IPs) \cup Permutations(Ths)
=============================================================================
