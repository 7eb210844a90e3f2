----------------------------- MODULE GaugeTrace -----------------------------
EXTENDS Gauge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l
Ev == Traces[tid][l]
Matches == CASE Ev.op = "gget" -> Ev.ret = gret'.v
             [] Ev.op = "gsnap" -> Ev.v = gret'.v /\ Ev.k = gret'.k
             [] OTHER -> TRUE

TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ GInit(<<0, 0, <<>>>>)
TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ Matches
    /\ l' = l + 1 /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))
Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
