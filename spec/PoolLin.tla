------------------------------- MODULE PoolLin -------------------------------
(***************************************************************************)
(* Histories of real threads on one real pool, each with handles of its    *)
(* own: accepted if some sequential order of the calls that keeps their    *)
(* precedence is a behaviour of Pool.                                      *)
(***************************************************************************)
EXTENDS Pool, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, done
H == Traces[tid]
LinInit == PInit /\ tid \in 1..Len(Traces) /\ done = {1}
Ready(i) == i \notin done /\ \A j \in (1..Len(H)) \ done : j = i \/ H[j].e > H[i].s
LinNext ==
    \E i \in 2..Len(H) :
       /\ Ready(i)
       /\ Do(H[i]) /\ Agrees(H[i])
       /\ done' = done \cup {i} /\ tid' = tid
       /\ (Cardinality(done') = Len(H) => PrintT(<<"ACC", tid>>))
LinView == <<[h \in Handles |-> [g \in Handles |-> own[h] = own[g]]], [h \in Handles |-> IF own[h] = 0 THEN 0 ELSE val[own[h]]], tid, done>>
Progress == Explain => PrintT(<<"AT", Cardinality(done) + 1>>)
=============================================================================
