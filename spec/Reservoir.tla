------------------------------ MODULE Reservoir ------------------------------
(***************************************************************************)
(* The reservoirs of cxxmetrics and the histogram on top of them, as a     *)
(* sequential state machine (P08, P10, P11, P13).                          *)
(*                                                                         *)
(* A reservoir object holds samples: records of a value and of the clock   *)
(* reading at which it was recorded, oldest first.  "last" and "ring" keep *)
(* the most recent cap samples; "window" also keeps them but shows only    *)
(* those not older than win; "uniform" fills up and from then on replaces  *)
(* one held sample, chosen at random, by every new one.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT Handles            \* names of the objects; object 1 exists initially

VARIABLES
    kind,                   \* "last" | "ring" | "window" | "uniform"
    cap,                    \* capacity N
    now,                    \* current reading of the clock
    box,                    \* box[h]: [live, n (updates ever), items, win (window length)]
    ret                     \* what the last call returned

vars == <<kind, cap, now, box, ret>>

Absent == [live |-> FALSE, n |-> 0, items |-> <<>>, win |-> 0]
Empty(w)  == [live |-> TRUE,  n |-> 0, items |-> <<>>, win |-> w]

Values(items) == [i \in 1..Len(items) |-> items[i].v]
Sorted(items) == SortSeq(Values(items), LAMBDA a, b: a < b)
LastOf(s, n)  == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

\* the samples a snapshot shows at clock reading t
Visible(b, t) ==
    IF kind = "window" THEN SelectSeq(b.items, LAMBDA s: s.t >= t - b.win) ELSE b.items

InitWith(k, c, w) ==
    /\ kind = k /\ cap = c
    /\ now = 0
    /\ box = [h \in Handles |-> IF h = 1 THEN Empty(w) ELSE Absent]
    /\ ret = <<>>

-----------------------------------------------------------------------------
Clock(t) ==
    /\ now' = t
    /\ ret' = <<>>
    /\ UNCHANGED <<kind, cap, box>>

\* recording into a reservoir that keeps the most recent samples
UpdateLast(h, v) ==
    /\ kind # "uniform"
    /\ box' = [box EXCEPT ![h].n = @ + 1,
                          ![h].items = LastOf(Append(@, [v |-> v, t |-> now]), cap)]
    /\ ret' = <<>>

\* recording into a uniform reservoir that is not full yet
UpdateFill(h, v) ==
    /\ kind = "uniform" /\ Len(box[h].items) < cap
    /\ box' = [box EXCEPT ![h].n = @ + 1, ![h].items = Append(@, [v |-> v, t |-> 0])]
    /\ ret' = Sorted(box'[h].items)

\* recording into a full uniform reservoir: any one held sample makes room
UpdateReplace(h, v) ==
    /\ kind = "uniform" /\ Len(box[h].items) >= cap
    /\ \E i \in 1..Len(box[h].items) :
           /\ box' = [box EXCEPT ![h].n = @ + 1,
                                 ![h].items = SortSeq([@ EXCEPT ![i] = [v |-> v, t |-> 0]],
                                                      LAMBDA a, b: a.v < b.v)]
           /\ ret' = Sorted(box'[h].items)

Update(h, v) ==
    /\ box[h].live
    /\ (UpdateLast(h, v) \/ UpdateFill(h, v) \/ UpdateReplace(h, v))
    /\ UNCHANGED <<kind, cap, now>>

\* the samples of a snapshot, sorted by value; reading changes nothing
Snap(h) ==
    /\ box[h].live
    /\ ret' = Sorted(Visible(box[h], now))
    /\ UNCHANGED <<kind, cap, now, box>>

\* iterating the ring buffer: oldest first
Ring(h) ==
    /\ box[h].live
    /\ ret' = Values(box[h].items)
    /\ UNCHANGED <<kind, cap, now, box>>

\* a new one, of any window
Fresh(g, w) ==
    /\ box' = [box EXCEPT ![g] = Empty(w)]
    /\ ret' = <<>>
    /\ UNCHANGED <<kind, cap, now>>

\* copy construction (g is created) and assignment (g exists)
Copy(h, g) ==
    /\ box[h].live
    /\ box' = [box EXCEPT ![g] = box[h]]
    /\ ret' = <<>>
    /\ UNCHANGED <<kind, cap, now>>

Assign(h, g) == box[g].live /\ Copy(h, g)

\* k consecutive values v, v+1, ... at once: what that many single updates amount to
Run(v, k, t) == [i \in 1..(IF k < cap THEN k ELSE cap) |->
                    [v |-> v + k - (IF k < cap THEN k ELSE cap) + i - 1, t |-> t]]
Bulk(h, v, k) ==
    /\ box[h].live /\ kind # "uniform"
    /\ box' = [box EXCEPT ![h].n = @ + k, ![h].items = LastOf(@ \o Run(v, k, now), cap)]
    /\ ret' = <<>>
    /\ UNCHANGED <<kind, cap, now>>

\* very many updates past capacity leave none of the samples held before: every slot is replaced
\* sooner or later.  k values starting at v, step d (0: one and the same value).
Flood(h, v, k, d) ==
    /\ box[h].live /\ kind = "uniform" /\ k >= 300 * cap
    /\ ret' = IF d = 0 THEN [i \in 1..cap |-> v] ELSE <<>>
    /\ box' = [box EXCEPT ![h].n = @ + k, ![h].items = [i \in 1..cap |-> [v |-> v, t |-> 0]]]
    /\ UNCHANGED <<kind, cap, now>>

\* more updates than anything counts in 32 bits, of which the trace only keeps the last ones: k values
\* from v on that fill the reservoir or, for a uniform one, whatever sample of the values 0..7 remains
Far(h, v, k, sample) ==
    IF kind = "uniform"
    THEN /\ box[h].live /\ k = 0 /\ Len(sample) = cap /\ \A i \in 1..cap : sample[i] \in 0..7
         /\ box' = [box EXCEPT ![h].n = @ + cap, ![h].items = [i \in 1..cap |-> [v |-> sample[i], t |-> 0]]]
         /\ ret' = sample
         /\ UNCHANGED <<kind, cap, now>>
    ELSE k >= cap /\ Bulk(h, v, k)

-----------------------------------------------------------------------------
\* commands as records, shared by the generator and by trace validation
Do(c) ==
    CASE c.op = "clock"  -> Clock(c.t)
      [] c.op = "update" -> Update(c.h, c.v)
      [] c.op = "snap"   -> Snap(c.h)
      [] c.op = "ring"   -> Ring(c.h)
      [] c.op = "copy"   -> Copy(c.h, c.g)
      [] c.op = "assign" -> Assign(c.h, c.g)
      [] c.op = "fresh"  -> Fresh(c.g, c.w)
      [] c.op = "bulk"   -> Bulk(c.h, c.v, c.k)
      [] c.op = "far"    -> Far(c.h, c.v, c.k, c.ret)
      [] c.op = "flood"  -> Flood(c.h, c.v, c.k, c.d)

-----------------------------------------------------------------------------
\* Invariants of the design
Bounded   == \A h \in Handles : Len(box[h].items) <= cap
FillLevel == \A h \in Handles :
                Len(box[h].items) = (IF box[h].n < cap THEN box[h].n ELSE cap)
=============================================================================
