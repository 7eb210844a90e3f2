------------------------------ MODULE RatesLin ------------------------------
(* Histories of real threads marking real averages, meters and timers      *)
(* (P15): some order of the calls that keeps their precedence (a before b  *)
(* exactly if a.e <= b.s) is a behaviour of Rates.                         *)
EXTENDS RatesTrace

VARIABLE done
H == Traces[tid]

LinInit == TraceInit /\ done = {1}
Ready(i) == i \notin done /\ \A j \in (1..Len(H)) \ done : j = i \/ H[j].e > H[i].s
LinNext ==
    /\ \E i \in 2..Len(H) :
          /\ Ready(i)
          /\ Do(H[i])
          /\ MatchesOf(H[i])
          /\ done' = done \cup {i}
    /\ UNCHANGED <<tid, l>>
    /\ (Cardinality(done') = Len(H) => PrintT(<<"ACC", tid>>))
LinProgress == Explain => PrintT(<<"AT", Cardinality(done) + 1>>)
=============================================================================
