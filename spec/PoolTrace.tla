------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l
Ev == Traces[tid][l]
TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ PInit
TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev) /\ Agrees(Ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))
Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
