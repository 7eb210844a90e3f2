------------------------------ MODULE Combine ------------------------------
(***************************************************************************)
(* Snapshots that are combined (P06): totals add up; averages, meters and   *)
(* the rates of timers are the mean over everything combined, however the   *)
(* combining was grouped and ordered.                                       *)
(***************************************************************************)
EXTENDS Dyadic

CONSTANTS Handles
VARIABLES box  \* box[h]: [kind, n: how many were combined, sums: of the value and of every window, mag: the largest magnitude met]
vars == <<box>>
None == [kind |-> "none", n |-> 0, sums |-> <<>>, mag |-> Zero]
Init == box = [h \in Handles |-> None]

MaxMag(s) == FoldLeft(LAMBDA a, x : MaxOf(a, Abs(x)), Zero, s)
Make(h, kind, vals) == box' = [box EXCEPT ![h] = [kind |-> kind, n |-> 1, sums |-> vals, mag |-> MaxMag(vals)]]
Merge(h, g) ==
    /\ box[h].kind = box[g].kind /\ box[h].kind # "none" /\ Len(box[h].sums) = Len(box[g].sums)
    /\ box' = [box EXCEPT ![h] = [kind |-> box[h].kind, n |-> box[h].n + box[g].n,
                                  sums |-> [i \in 1..Len(box[h].sums) |-> Add(box[h].sums[i], box[g].sums[i])],
                                  mag |-> MaxOf(box[h].mag, box[g].mag)]]
\* a moved-from snapshot is not looked at again
Move(h, g) == h # g /\ box[h].kind # "none" /\ box' = [box EXCEPT ![g] = box[h], ![h] = None]
Look(h) == box[h].kind # "none" /\ UNCHANGED box

\* out: the value and the rate of every window
IsCombined(b, out) ==
    /\ Len(out) = Len(b.sums)
    /\ \A i \in 1..Len(out) :
          IF b.kind = "cum" THEN out[i] = b.sums[i]
          ELSE Near(MulInt(out[i], b.n), b.sums[i], MulInt(Mul(b.mag, Pow2(-44)), b.n))

Do(c) ==
    CASE c.op = "make" -> Make(c.h, c.kind, c.vals)
      [] c.op = "merge" -> Merge(c.h, c.g)
      [] c.op = "move" -> Move(c.h, c.g)
      [] c.op = "look" -> Look(c.h)
=============================================================================
