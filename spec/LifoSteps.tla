----------------------------- MODULE LifoSteps -----------------------------
(***************************************************************************)
(* The steps of a lock-free stack over nodes that return to it: a head     *)
(* holding a node and a tag, links in the nodes, and threads that load the *)
(* head, link or follow, and compare-and-swap.  Nodes taken off are freed  *)
(* and may come back at once.  The stack the steps implement is Lifo.      *)
(* TagOnPush / TagOnPop say which of the two advance the tag: one of them  *)
(* is enough, and with neither a stalled pop puts back a node that is gone *)
(* (the ABA problem).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Nodes, Threads, MaxOps, TagOnPush, TagOnPop
None == 0       \* no node; nodes are positive
VARIABLES head,    \* [n, t]
          link,    \* link[n]: the node under n
          place,   \* place[n]: "free", "stack", or a thread
          pc, loc, \* per thread: where it is; its copy of the head, its node, the link it read
          left,    \* per thread: operations still to do
          ghost,   \* the stack that the completed swaps amount to
          bad      \* a pop took off something else than the top
vars == <<head, link, place, pc, loc, left, ghost, bad>>

\* nodes 1..k are on the stack, 1 on top
Init ==
    \E k \in 0..Cardinality(Nodes) :
    /\ head = [n |-> IF k = 0 THEN None ELSE 1, t |-> 0]
    /\ link = [n \in Nodes |-> IF n < k THEN n + 1 ELSE None]
    /\ place = [n \in Nodes |-> IF n <= k THEN "stack" ELSE "free"]
    /\ ghost = [i \in 1..k |-> i]
    /\ pc = [p \in Threads |-> "idle"] /\ left = [p \in Threads |-> MaxOps]
    /\ loc = [p \in Threads |-> [h |-> [n |-> None, t |-> 0], my |-> None, nx |-> None]]
    /\ bad = FALSE

Bump(t, on) == IF on THEN t + 1 ELSE t
\* push: take a free node, load the head, link, swap
StartPush(p) ==
    /\ pc[p] = "idle" /\ left[p] > 0
    /\ \E n \in Nodes : /\ place[n] = "free"
                        /\ place' = [place EXCEPT ![n] = p]
                        /\ loc' = [loc EXCEPT ![p] = [h |-> head, my |-> n, nx |-> None]]
    /\ pc' = [pc EXCEPT ![p] = "link"] /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ UNCHANGED <<head, link, ghost, bad>>
Link(p) ==
    /\ pc[p] = "link" /\ link' = [link EXCEPT ![loc[p].my] = loc[p].h.n]
    /\ pc' = [pc EXCEPT ![p] = "pushcas"]
    /\ UNCHANGED <<head, place, loc, left, ghost, bad>>
PushCas(p) ==
    /\ pc[p] = "pushcas"
    /\ IF head = loc[p].h
       THEN /\ head' = [n |-> loc[p].my, t |-> Bump(loc[p].h.t, TagOnPush)]
            /\ place' = [place EXCEPT ![loc[p].my] = "stack"]
            /\ ghost' = <<loc[p].my>> \o ghost
            /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED loc
       ELSE /\ loc' = [loc EXCEPT ![p].h = head]
            /\ pc' = [pc EXCEPT ![p] = "link"] /\ UNCHANGED <<head, place, ghost>>
    /\ UNCHANGED <<link, left, bad>>
\* pop: load the head, read its link, swap
StartPop(p) ==
    /\ pc[p] = "idle" /\ left[p] > 0
    /\ loc' = [loc EXCEPT ![p] = [h |-> head, my |-> None, nx |-> None]]
    /\ pc' = [pc EXCEPT ![p] = IF head.n = None THEN "idle" ELSE "follow"]
    /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ bad' = (bad \/ (head.n = None /\ ghost # <<>>))
    /\ UNCHANGED <<head, link, place, ghost>>
Follow(p) ==
    /\ pc[p] = "follow" /\ loc' = [loc EXCEPT ![p].nx = link[loc[p].h.n]]
    /\ pc' = [pc EXCEPT ![p] = "popcas"]
    /\ UNCHANGED <<head, link, place, left, ghost, bad>>
PopCas(p) ==
    /\ pc[p] = "popcas"
    /\ IF head = loc[p].h
       THEN /\ head' = [n |-> loc[p].nx, t |-> Bump(loc[p].h.t, TagOnPop)]
            /\ loc' = [loc EXCEPT ![p].my = loc[p].h.n]
            /\ bad' = (bad \/ ghost = <<>> \/ (ghost # <<>> /\ Head(ghost) # loc[p].h.n))
            /\ ghost' = IF ghost = <<>> THEN ghost ELSE Tail(ghost)
            /\ place' = [place EXCEPT ![loc[p].h.n] = p]
            /\ pc' = [pc EXCEPT ![p] = "have"]
       ELSE /\ loc' = [loc EXCEPT ![p].h = head]
            /\ bad' = (bad \/ (head.n = None /\ ghost # <<>>))
            /\ pc' = [pc EXCEPT ![p] = IF head.n = None THEN "idle" ELSE "follow"]
            /\ UNCHANGED <<head, place, ghost>>
    /\ UNCHANGED <<link, left>>
\* what came off is freed, or pushed again as it is
Free(p) ==
    /\ pc[p] = "have" /\ place' = [place EXCEPT ![loc[p].my] = "free"]
    /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<head, link, loc, left, ghost, bad>>
Again(p) ==
    /\ pc[p] = "have" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ loc' = [loc EXCEPT ![p].h = head] /\ pc' = [pc EXCEPT ![p] = "link"]
    /\ UNCHANGED <<head, link, place, ghost, bad>>
Next == \E p \in Threads : \/ StartPush(p) \/ Link(p) \/ PushCas(p) \/ StartPop(p) \/ Follow(p) \/ PopCas(p)
                           \/ Free(p) \/ Again(p)

RECURSIVE Walk(_, _)
Walk(n, k) == IF n = None \/ k = 0 THEN <<>> ELSE <<n>> \o Walk(link[n], k - 1)
TypeOK == /\ head.n \in Nodes \cup {None} /\ head.t \in Nat
          /\ \A n \in Nodes : link[n] \in Nodes \cup {None} /\ place[n] \in {"free", "stack"} \cup Threads
\* the links from the head are the stack, what came off was its top, and every node has one owner
Implements == ~bad /\ Walk(head.n, Cardinality(Nodes) + 1) = ghost
OneOwner == \A n \in Nodes : (place[n] = "stack") = (\E i \in 1..Len(ghost) : ghost[i] = n)
\* every step leaves the stack alone, pushes, pops or frees (results aside: they are what Implements compares)
Refines ==
    [][\/ ghost' = ghost
       \/ \E n \in Nodes : ghost' = <<n>> \o ghost
       \/ ghost # <<>> /\ ghost' = Tail(ghost)]_ghost
=============================================================================
