--------------------------- MODULE SnapshotTrace ---------------------------
(* Is a trace recorded from the real snapshots a behaviour of Snapshot?    *)
EXTENDS Snapshot, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, l

TraceInit == tid \in 1..Len(Traces) /\ l = 2 /\ Init

Ev == Traces[tid][l]
S == box[Ev.h].items

Matches ==
    CASE Ev.op = "stats" ->
            /\ Ev.size = Len(S)
            /\ ("count" \in DOMAIN Ev => Ev.count = box[Ev.h].count)
            /\ IsMean(S, Ev.mean)
            /\ (S # <<>> => Ev.min = Mn(S) /\ Ev.max = Mx(S))
      [] Ev.op = "quant" ->
            /\ IsQuantile(S, Ev.code, M, Ev.val)
            /\ (S # <<>> => Le(Sub(Mn(S), Tol(S)), Ev.val) /\ Le(Ev.val, Add(Mx(S), Tol(S))))
      [] Ev.op = "sample" -> IsSampling(S, Ev.max, Ev.out)
      [] OTHER -> TRUE

TraceNext ==
    /\ l <= Len(Traces[tid])
    /\ Do(Ev)
    /\ Matches
    /\ l' = l + 1
    /\ tid' = tid
    /\ (l' > Len(Traces[tid]) => PrintT(<<"ACC", tid>>))

Progress == Explain => PrintT(<<"AT", l>>)
=============================================================================
