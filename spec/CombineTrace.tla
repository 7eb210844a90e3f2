---------------------------- MODULE CombineTrace ----------------------------
(* Is a trace recorded from the real snapshots a behaviour of Combine?     *)
EXTENDS Combine, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l
Ev == Traces[tid][l]
TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ Init
TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ (Ev.op = "look" => IsCombined(box[Ev.h], Ev.out))
    /\ l' = l + 1 /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))
Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
