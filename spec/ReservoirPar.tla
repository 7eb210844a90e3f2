---------------------------- MODULE ReservoirPar ----------------------------
(***************************************************************************)
(* Reservoirs and histograms updated by many threads at once (P09, P13).   *)
(* An update and a snapshot take time: each has a beginning and an end,    *)
(* and what overlaps may be seen or not.                                   *)
(*                                                                         *)
(* begun, ended: how often each value has been passed to an update that    *)
(* has begun, has ended.  open[i]: what was known when reading i began.    *)
(* early: updates still running that may be filling the reservoir: they    *)
(* began when fewer than cap updates had ended.                            *)
(* ring: the reservoir keeps the latest values.  ups: the updates, each    *)
(* with its value, how many had begun when it had begun (itself included)  *)
(* and when it ended (0: still running), and whether it ran alone.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cap, begun, ended, open, floor, early, ring, ups
vars == <<cap, begun, ended, open, floor, early, ring, ups>>

At0(f, v) == IF v \in DOMAIN f THEN f[v] ELSE 0
Inc(f, v) == (v :> At0(f, v) + 1) @@ f
NoFun == [x \in {} |-> 0]
RECURSIVE TotalOver(_, _)
TotalOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + TotalOver(f, S \ {x})
Total(f) == TotalOver(f, DOMAIN f)
Occurs(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Values(s) == {s[i] : i \in DOMAIN s}
Least(a, b) == IF a < b THEN a ELSE b

ParInit(c, r) == cap = c /\ ring = r /\ ups = NoFun /\ begun = NoFun /\ ended = NoFun /\ open = NoFun /\ floor = 0 /\ early = {}

\* k updates of the values 1..k, one after the other, have been made
ParInit0(c, r, k) ==
    /\ cap = c /\ ring = r /\ open = NoFun /\ floor = 0 /\ early = {}
    /\ begun = [v \in 1..k |-> 1] /\ ended = begun
    /\ ups = [u \in 1..k |-> [v |-> u, first |-> u, last |-> u, alone |-> TRUE]]

UpdateBegin(i, v) ==
    LET running == {u \in DOMAIN ups : ups[u].last = 0} IN
    /\ begun' = Inc(begun, v)
    /\ early' = IF Total(ended) < cap THEN early \cup {i} ELSE early
    /\ ups' = (i :> [v |-> v, first |-> Total(begun) + 1, last |-> 0, alone |-> running = {}])
              @@ [u \in DOMAIN ups |-> IF u \in running THEN [ups[u] EXCEPT !.alone = FALSE] ELSE ups[u]]
    /\ UNCHANGED <<cap, ended, open, floor, ring>>
UpdateEnd(i, v) == /\ ended' = Inc(ended, v) /\ early' = early \ {i}
                   /\ ups' = [ups EXCEPT ![i].last = Total(begun)]
                   /\ UNCHANGED <<cap, begun, open, floor, ring>>
FilledUp == Total(ended) >= cap /\ early = {}

\* the updates that began after u had ended, and those of them that have ended
After(u) == IF ups[u].last = 0 THEN {} ELSE {w \in DOMAIN ups : ups[w].first > ups[u].last}
\* cap later updates replace a value, whoever else was writing; each update still running may be the one whose
\* turn it was to replace it
Superseded == LET running == {u \in DOMAIN ups : ups[u].last = 0} IN
    {u \in DOMAIN ups : Cardinality({w \in After(u) : ups[w].last > 0}) >= cap * (1 + Cardinality(running))}
\* and nobody but cap later updates replaces the value of an update that ran alone
Safe == {u \in DOMAIN ups : ups[u].last > 0 /\ ups[u].alone /\ Cardinality(After(u)) < cap}

\* a reading: remember what must be visible by now
Known == [ended |-> Total(ended), full |-> FilledUp, quiet |-> begun = ended, begun |-> Total(begun), floor |-> floor,
          gone |-> IF ring THEN Superseded ELSE {}]
ReadBegin(i) ==
    /\ open' = (i :> Known) @@ open
    /\ UNCHANGED <<cap, begun, ended, floor, early, ring, ups>>

\* the samples a reading may deliver at its end
SamplesFit(o, s) ==
    /\ Len(s) <= cap
    \* filled up: only values really recorded, and not replaced since
    /\ o.full => \A v \in Values(s) : \E u \in DOMAIN ups : ups[u].v = v /\ u \notin o.gone
    \* nothing was going on: exact
    /\ (o.quiet /\ Total(begun) = o.begun) =>
          /\ Len(s) = Least(o.ended, cap)
          /\ \A v \in Values(s) : Occurs(s, v) <= At0(ended, v)
          /\ ring => /\ \A v \in Values(s) : Occurs(s, v) <= Cardinality({u \in DOMAIN ups : ups[u].v = v /\ u \notin o.gone})
                     /\ \A u \in Safe : Occurs(s, ups[u].v) >= Cardinality({w \in Safe : ups[w].v = ups[u].v})
\* the count a reading may deliver: a total reached during the reading, never less than one delivered before
CountOK(i, c) == c >= open[i].ended /\ c <= Total(begun) /\ c >= open[i].floor

ReadEnd(i, hasS, s, hasC, c) ==
    /\ hasS => SamplesFit(open[i], s)
    /\ hasC => CountOK(i, c)
    /\ floor' = IF hasC /\ c > floor THEN c ELSE floor
    /\ UNCHANGED <<cap, begun, ended, open, early, ring, ups>>

\* more updates ended than begun would be nonsense, and what was replaced is not what must be there
Sane == /\ \A v \in DOMAIN ended : ended[v] <= At0(begun, v)
        /\ Superseded \cap Safe = {}
=============================================================================
