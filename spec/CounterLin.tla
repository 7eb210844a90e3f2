----------------------------- MODULE CounterLin -----------------------------
(***************************************************************************)
(* Histories of real threads on real counters (P01).  A history lists the  *)
(* calls of every thread with what they returned; call a returned before   *)
(* call b was made exactly if a.e <= b.s.  The history is accepted if its   *)
(* calls, performed one at a time in some order that keeps this precedence,*)
(* are a behaviour of Counter.                                             *)
(***************************************************************************)
EXTENDS Counter, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, done
H == Traces[tid]

LinInit == CInit /\ tid \in 1..Len(Traces) /\ done = {1}
Ready(i) == i \notin done /\ \A j \in (1..Len(H)) \ done : j = i \/ H[j].e > H[i].s
LinNext ==
    \E i \in 2..Len(H) :
       /\ Ready(i)
       /\ Do(H[i])
       /\ ("ret" \in DOMAIN H[i] => cret' = H[i].ret)
       /\ done' = done \cup {i} /\ tid' = tid
       /\ (Cardinality(done') = Len(H) => PrintT(<<"ACC", tid>>))
Progress == Explain => PrintT(<<"AT", Cardinality(done) + 1>>)
=============================================================================
