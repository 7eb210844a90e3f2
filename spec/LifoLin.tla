------------------------------- MODULE LifoLin -------------------------------
(***************************************************************************)
(* Histories of real threads on one real stack: accepted if the calls,     *)
(* performed one at a time in some order that keeps the precedence between *)
(* calls that did not overlap, are a behaviour of Lifo.                    *)
(***************************************************************************)
EXTENDS Lifo, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, done
H == Traces[tid]
LinInit == LInit /\ tid \in 1..Len(Traces) /\ done = {1}
Ready(i) == i \notin done /\ \A j \in (1..Len(H)) \ done : j = i \/ H[j].e > H[i].s
LinNext ==
    \E i \in 2..Len(H) :
       /\ Ready(i)
       /\ Do(H[i]) /\ Agrees(H[i])
       /\ done' = done \cup {i} /\ tid' = tid
       /\ (Cardinality(done') = Len(H) => PrintT(<<"ACC", tid>>))
LinView == <<stk, held, tid, done>>
Progress == Explain => PrintT(<<"AT", Cardinality(done) + 1>>)
=============================================================================
