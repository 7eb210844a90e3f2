--------------------------- MODULE ReservoirTrace ---------------------------
(* Is a trace recorded from the real reservoirs a behaviour of Reservoir?  *)
EXTENDS Reservoir, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 2
             /\ LET c == Traces[tid][1] IN InitWith(c.kind, c.cap, c.win)

Ev == Traces[tid][l]

\* everything the event reports must be what the specification says
Matches ==
    /\ ("ret" \in DOMAIN Ev =>
          IF Ev.op = "flood" /\ Ev.d # 0
          THEN /\ Len(Ev.ret) = cap   \* distinct new values, none of them twice, nothing else
               /\ \A i \in 1..cap : Ev.ret[i] \in Ev.v..(Ev.v + Ev.k - 1)
               /\ \A i \in 2..cap : Ev.ret[i - 1] < Ev.ret[i]
          ELSE ret' = Ev.ret)
    /\ ("size" \in DOMAIN Ev => Ev.size = Len(box[Ev.h].items))
    /\ (("cnt" \in DOMAIN Ev /\ Ev.cnt >= 0) => Ev.cnt = box'[Ev.h].n)

TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ Matches
    /\ l' = l + 1
    /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))

Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
