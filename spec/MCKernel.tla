------------------------------- MODULE MCKernel -------------------------------
EXTENDS Kernel, TLC, Json
Emit == Len(log) = MaxLen => PrintT("CASE " \o ToJson([i \in 1..Len(log) |-> log[i].ask]))
=============================================================================
