------------------------- MODULE ReservoirParTrace -------------------------
(* Histories recorded from real reservoirs and histograms under threads.   *)
(* The history lists calls; e numbers the returns, and a call was made     *)
(* after the first s returns.  All calls made between two returns begin    *)
(* before the later one.                                                   *)
EXTENDS ReservoirPar, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Explain == "EXPLAIN" \in DOMAIN IOEnv
VARIABLES tid, k, ph, queue     \* k: returns so far; queue: calls that begin now

H == Traces[tid]
Calls == 2..Len(H)
TheEnd(n) == CHOOSE i \in Calls : H[i].e = n
Starting(n) == SelectSeq([j \in 1..(Len(H) - 1) |-> j + 1], LAMBDA i : H[i].s = n)

ParTraceInit == /\ tid \in 1..Len(Traces) /\ k = 0 /\ ph = "begin"
                /\ queue = Starting(0)
                /\ ParInit(Traces[tid][1].cap, Traces[tid][1].kind \notin {"uniform", "huniform"})

BeginOne ==
    /\ ph = "begin"
    /\ IF queue = <<>> THEN ph' = "end" /\ UNCHANGED <<vars, queue>>
       ELSE LET i == Head(queue) IN
            /\ IF H[i].op = "upd" THEN UpdateBegin(i, H[i].v) ELSE ReadBegin(i)
            /\ queue' = Tail(queue) /\ ph' = ph
    /\ UNCHANGED <<tid, k>>
EndOne ==
    /\ ph = "end" /\ k < Len(H) - 1
    /\ LET i == TheEnd(k + 1)
           S == "ret" \in DOMAIN H[i]
           C == "cnt" \in DOMAIN H[i]
       IN  IF H[i].op = "upd" THEN UpdateEnd(i, H[i].v)
           ELSE ReadEnd(i, S, IF S THEN H[i].ret ELSE <<>>, C, IF C THEN H[i].cnt ELSE 0)
    /\ k' = k + 1 /\ ph' = "begin" /\ queue' = Starting(k + 1) /\ tid' = tid
    /\ (k' = Len(H) - 1 => PrintT(<<"ACC", tid>>))
ParTraceNext == BeginOne \/ EndOne
Progress == Explain => PrintT(<<"AT", IF k < Len(H) - 1 THEN TheEnd(k + 1) ELSE 1>>)
=============================================================================
