------------------------------ MODULE PathTrace ------------------------------
EXTENDS Path, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l
Ev == Traces[tid][l]
Matches == CASE Ev.op \in {"plist", "pstr"} -> Ev.ret = pret'.v
             [] Ev.op = "peq" -> /\ Ev.eq = pret'.v /\ Ev.ne = ~pret'.v /\ Ev.same = pret'.v
                                 /\ (pret'.v => Ev.hash)
             [] OTHER -> TRUE

TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ PInit
TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ Matches
    /\ l' = l + 1 /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))
Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
