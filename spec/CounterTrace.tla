---------------------------- MODULE CounterTrace ----------------------------
(* Is a trace recorded from real counters a behaviour of Counter?          *)
EXTENDS Counter, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l
Ev == Traces[tid][l]

TraceInit == CInit /\ tid \in 1..Len(Traces) /\ l = 2
TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ ("ret" \in DOMAIN Ev => cret' = Ev.ret)
    /\ l' = l + 1 /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))
Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
