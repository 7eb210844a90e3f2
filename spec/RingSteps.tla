----------------------------- MODULE RingSteps -----------------------------
(***************************************************************************)
(* The steps of the ring buffer under the reservoirs: an update takes a    *)
(* place, stores its value and raises the size; a reading loads the size,  *)
(* the next place and then slot after slot.  What ReservoirPar asks of     *)
(* reservoirs under threads is checked here for every interleaving, and    *)
(* Faults name ways to get the steps wrong, whose counterexamples become   *)
(* programs for the real code.                                             *)
(***************************************************************************)
EXTENDS ReservoirPar, Json

CONSTANTS Cap, Threads, MaxOps, Faults
VARIABLES tail, data, size, pc, loc, left, ok, did, pre
svars == <<tail, data, size, pc, loc, left, ok, did, pre>>
Fault == pre.fault
Slots == 0..(Cap - 1)
Unset == 0

\* pre updates one after the other, by nobody in particular
RingInit ==
    \E ft \in Faults, k \in 0..(2 * Cap) :
    /\ pre = [n |-> k, fault |-> ft]
    /\ ParInit0(Cap, TRUE, k)
    /\ tail = k /\ size = Least(k, Cap)
    /\ data = [s \in Slots |-> IF k = 0 \/ s >= k THEN Unset
                               ELSE CHOOSE v \in 1..k : (v - 1) % Cap = s /\ v + Cap > k]
    /\ pc = [p \in Threads |-> "idle"] /\ left = [p \in Threads |-> MaxOps]
    /\ loc = [p \in Threads |-> [id |-> 0, w |-> 0, c |-> 0, at |-> 0, rem |-> 0, got |-> <<>>]]
    /\ ok = TRUE /\ did = [p \in Threads |-> <<>>]

NextId == Total(begun) + Cardinality(DOMAIN open) + 1
NextVal == Total(begun) + 1
Note(p, op) == did' = [did EXCEPT ![p] = Append(@, op)] /\ pre' = pre

\* ---- update
Take(p) ==
    /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ UpdateBegin(NextId, NextVal)
    /\ loc' = [loc EXCEPT ![p] = [id |-> NextId, w |-> tail, c |-> NextVal, at |-> 0, rem |-> 0, got |-> <<>>]]
    /\ tail' = IF Fault = "ticket" THEN tail ELSE tail + 1
    /\ pc' = [pc EXCEPT ![p] = IF Fault = "ticket" THEN "ticket" ELSE "store"]
    /\ Note(p, "upd") /\ UNCHANGED <<data, size, ok>>
\* faulty: the place is loaded, then stored
Ticket(p) ==
    /\ pc[p] = "ticket" /\ tail' = loc[p].w + 1 /\ pc' = [pc EXCEPT ![p] = "store"]
    /\ UNCHANGED <<vars, data, size, loc, left, ok, did, pre>>
Store(p) ==
    /\ pc[p] = "store" /\ data' = [data EXCEPT ![loc[p].w % Cap] = loc[p].c]
    /\ tail' = IF Fault = "wind" /\ loc[p].w + 1 = 2 * Cap THEN Cap ELSE tail
    /\ pc' = [pc EXCEPT ![p] = "raise"]
    /\ UNCHANGED <<vars, size, loc, left, ok, did, pre>>
\* the size is loaded, and raised if it is still what was loaded
Raise(p) ==
    /\ pc[p] = "raise" /\ loc' = [loc EXCEPT ![p].at = size] /\ pc' = [pc EXCEPT ![p] = "swap"]
    /\ UNCHANGED <<vars, tail, data, size, left, ok, did, pre>>
Swap(p) ==
    /\ pc[p] = "swap"
    /\ LET want == Least(loc[p].w + 1, Cap)
           done == want <= loc[p].at \/ loc[p].at >= Cap
           swap == Fault = "size" \/ size = loc[p].at
       IN  IF done \/ swap
           THEN /\ size' = IF done THEN size ELSE IF Fault = "plusone" THEN size + 1 ELSE want
                /\ loc' = loc
                /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UpdateEnd(loc[p].id, loc[p].c)
           ELSE /\ loc' = [loc EXCEPT ![p].at = size] /\ UNCHANGED <<vars, size, pc>>
    /\ UNCHANGED <<tail, data, left, ok, did, pre>>
\* ---- reading
Begin(p) ==
    /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ ReadBegin(NextId)
    /\ loc' = [loc EXCEPT ![p] = [id |-> NextId, w |-> 0, c |-> 0, at |-> size, rem |-> 0, got |-> <<>>]]
    /\ pc' = [pc EXCEPT ![p] = IF size < Cap THEN "length" ELSE "first"]
    /\ Note(p, "snap") /\ UNCHANGED <<tail, data, size, ok>>
First(p) ==
    /\ pc[p] = "first" /\ loc' = [loc EXCEPT ![p].w = tail % Cap] /\ pc' = [pc EXCEPT ![p] = "length"]
    /\ UNCHANGED <<vars, tail, data, size, left, ok, did, pre>>
Length(p) ==
    /\ pc[p] = "length" /\ loc' = [loc EXCEPT ![p].rem = size] /\ pc' = [pc EXCEPT ![p] = "read"]
    /\ UNCHANGED <<vars, tail, data, size, left, ok, did, pre>>
Read(p) ==
    /\ pc[p] = "read"
    /\ IF loc[p].rem = 0
       THEN /\ ReadEnd(loc[p].id, FALSE, <<>>, FALSE, 0)
            /\ ok' = (ok /\ SamplesFit(open[loc[p].id], loc[p].got))
            /\ pc' = [pc EXCEPT ![p] = "idle"] /\ loc' = loc
       ELSE /\ loc' = [loc EXCEPT ![p] = [@ EXCEPT !.rem = @ - 1, !.w = @ + 1, !.got = Append(@, data[loc[p].w % Cap])]]
            /\ UNCHANGED <<vars, ok, pc>>
    /\ UNCHANGED <<tail, data, size, left, did, pre>>
RingNext == \E p \in Threads : \/ Take(p) \/ Ticket(p) \/ Store(p) \/ Raise(p) \/ Swap(p)
                               \/ Begin(p) \/ First(p) \/ Length(p) \/ Read(p)

\* what a reading would deliver now, with nobody else about
Now == [k \in 1..size |-> data[((IF size < Cap THEN 0 ELSE tail) + k - 1) % Cap]]
AllIdle == \A p \in Threads : pc[p] = "idle"
QuietOK == AllIdle => SamplesFit(Known, Now)
RingOK == ok
RingTypes == size \in 0..Cap /\ \A s \in Slots : data[s] = Unset \/ data[s] <= Total(begun)
Wrong == ~ok \/ (AllIdle /\ ~SamplesFit(Known, Now))
StopWhenWrong == Wrong => PrintT("GEN " \o ToJson([cap |-> Cap, pre |-> pre.n, fault |-> pre.fault, did |-> did])) /\ FALSE
=============================================================================
