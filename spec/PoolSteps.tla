----------------------------- MODULE PoolSteps -----------------------------
(***************************************************************************)
(* The steps of the object pool: one word per node that is either a        *)
(* reference count or the link of the free list, and a tagged free list.   *)
(* Each thread has two handles of its own and may copy the shared one.     *)
(* Checked for every interleaving: a node that a handle refers to holds    *)
(* one living object, its count is the number of owners, and objects are   *)
(* built in storage without an object and destroyed once.                  *)
(* Faults name ways to get the steps wrong; the counterexamples become     *)
(* programs for the real code.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, Threads, MaxOps, FirstOps, Faults   \* thread "a" makes at most FirstOps calls
None == 0
VARIABLES head,      \* [n, t]
          word,      \* per node: [k |-> "count"/"link"/"new", x]
          alive,     \* per node: a living object
          hand,      \* per thread and slot: the node referred to
          shared,    \* the node of the shared handle (kept until the threads are done)
          pc, loc, left, bad,
          did, pre   \* what was done, for the generator
Fault == pre.fault
vars == <<head, word, alive, hand, shared, pc, loc, left, bad, did, pre>>
Slots == {1, 2}
Count(c) == [k |-> "count", x |-> c]
Link(n) == [k |-> "link", x |-> n]
Fresh == [k |-> "new", x |-> 0]

\* the first node may belong to the shared handle; some of the others are on the free list
Init ==
    \E ft \in Faults, sh \in BOOLEAN, f \in 0..(Cardinality(Nodes) - 1) :
    LET base == IF sh THEN 1 ELSE 0 IN
    /\ base + f <= Cardinality(Nodes)
    /\ pre = [shared |-> sh, free |-> f, fault |-> ft]
    /\ shared = IF sh THEN 1 ELSE None
    /\ head = [n |-> IF f = 0 THEN None ELSE base + 1, t |-> 0]
    /\ word = [n \in Nodes |-> IF sh /\ n = 1 THEN Count(1)
                               ELSE IF n <= base + f THEN Link(IF n < base + f THEN n + 1 ELSE None) ELSE Fresh]
    /\ alive = [n \in Nodes |-> sh /\ n = 1]
    /\ hand = [p \in Threads |-> [s \in Slots |-> None]]
    /\ pc = [p \in Threads |-> "idle"] /\ left = [p \in Threads |-> IF p = "a" THEN FirstOps ELSE MaxOps]
    /\ loc = [p \in Threads |-> [s |-> 0, n |-> None, h |-> [n |-> None, t |-> 0], nx |-> None, w |-> Fresh]]
    /\ bad = FALSE /\ did = [p \in Threads |-> <<>>]

Begin(p, what, at, l) ==
    /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
    /\ did' = [did EXCEPT ![p] = Append(@, what)] /\ pre' = pre
    /\ pc' = [pc EXCEPT ![p] = at] /\ loc' = [loc EXCEPT ![p] = l]
On(p, at) == pc[p] = at
Goto(p, at) == pc' = [pc EXCEPT ![p] = at]
Still == UNCHANGED <<left, did, pre, shared>>
Give(p, n) == hand' = [hand EXCEPT ![p][loc[p].s] = n]

\* ---- a new object into an empty handle
Empty(p, s) == hand[p][s] = None /\ \A r \in Slots : r < s => hand[p][r] # None
Alloc(p, s) ==
    /\ Empty(p, s)
    /\ Begin(p, <<"alloc", s>>, "alloc", [loc[p] EXCEPT !.s = s, !.h = head])
    /\ UNCHANGED <<head, word, alive, hand, shared, bad>>
AllocTop(p) ==
    /\ On(p, "alloc")
    /\ IF loc[p].h.n = None
       THEN \E n \in Nodes : /\ word[n] = Fresh /\ \A m \in Nodes : m < n => word[m] # Fresh
                             /\ word' = [word EXCEPT ![n] = Count(1)] /\ alive' = [alive EXCEPT ![n] = TRUE]
                             /\ Give(p, n) /\ Goto(p, "idle") /\ UNCHANGED loc
       ELSE /\ loc' = [loc EXCEPT ![p].nx = word[loc[p].h.n]] /\ Goto(p, "take")
            /\ UNCHANGED <<word, alive, hand>>
    /\ UNCHANGED <<head, bad>> /\ Still
AllocTake(p) ==
    /\ On(p, "take")
    /\ IF head.n = loc[p].h.n /\ (Fault = "untagged" \/ head.t = loc[p].h.t)
       THEN /\ head' = [n |-> IF loc[p].nx.k = "link" THEN loc[p].nx.x ELSE None, t |-> head.t + 1]
            /\ bad' = (bad \/ loc[p].nx.k # "link")
            /\ Goto(p, "build") /\ UNCHANGED loc
       ELSE /\ loc' = [loc EXCEPT ![p].h = head] /\ Goto(p, "alloc") /\ UNCHANGED <<head, bad>>
    /\ UNCHANGED <<word, alive, hand>> /\ Still
AllocBuild(p) ==
    /\ On(p, "build")
    /\ LET n == loc[p].h.n IN
       /\ bad' = (bad \/ alive[n] \/ word[n].k = "count")
       /\ word' = [word EXCEPT ![n] = Count(1)] /\ alive' = [alive EXCEPT ![n] = TRUE]
       /\ Give(p, n)
    /\ Goto(p, "idle") /\ UNCHANGED <<head, loc>> /\ Still

\* ---- letting go
Drop(p, s) ==
    /\ hand[p][s] # None
    /\ Begin(p, <<"drop", s>>, "drop", [loc[p] EXCEPT !.s = s, !.n = hand[p][s], !.w = word[hand[p][s]]])
    /\ hand' = [hand EXCEPT ![p][s] = None]
    /\ UNCHANGED <<head, word, alive, shared, bad>>
DropCas(p) ==
    /\ On(p, "drop")
    /\ LET n == loc[p].n
           c == loc[p].w
       IN  IF c.k # "count" \/ c.x = 0
           THEN /\ bad' = TRUE /\ Goto(p, "idle") /\ UNCHANGED <<word, loc>>
           ELSE IF Fault = "split" \/ word[n] = c
           THEN /\ word' = [word EXCEPT ![n] = IF c.x = 1 THEN Link(None) ELSE Count(c.x - 1)]
                /\ Goto(p, IF c.x > 1 THEN "idle" ELSE IF Fault = "late" THEN "top" ELSE "destroy") /\ UNCHANGED <<loc, bad>>
           ELSE /\ loc' = [loc EXCEPT ![p].w = word[n]] /\ UNCHANGED <<word, pc, bad>>
    /\ UNCHANGED <<head, alive, hand>> /\ Still
Destroy(p) ==
    /\ On(p, "destroy")
    /\ bad' = (bad \/ ~alive[loc[p].n]) /\ alive' = [alive EXCEPT ![loc[p].n] = FALSE]
    /\ Goto(p, IF Fault = "late" THEN "idle" ELSE "top") /\ UNCHANGED <<head, word, loc, hand>> /\ Still
FreeTop(p) ==
    /\ On(p, "top") /\ loc' = [loc EXCEPT ![p].h = head] /\ Goto(p, "link")
    /\ UNCHANGED <<head, word, alive, hand, bad>> /\ Still
FreeLink(p) ==
    /\ On(p, "link") /\ word' = [word EXCEPT ![loc[p].n] = Link(loc[p].h.n)] /\ Goto(p, "free")
    /\ UNCHANGED <<head, alive, hand, loc, bad>> /\ Still
FreeCas(p) ==
    /\ On(p, "free")
    /\ IF head = loc[p].h \/ (Fault = "untagged" /\ head.n = loc[p].h.n)
       THEN /\ head' = [n |-> loc[p].n, t |-> head.t + 1] /\ Goto(p, IF Fault = "late" THEN "destroy" ELSE "idle") /\ UNCHANGED loc
       ELSE /\ loc' = [loc EXCEPT ![p].h = head] /\ Goto(p, IF Fault = "stale" THEN "free" ELSE "link") /\ UNCHANGED head
    /\ UNCHANGED <<word, alive, hand, bad>> /\ Still

\* ---- another owner: of an object of one's own, or of the shared one
Copy(p, s, n, what) ==
    /\ Empty(p, s) /\ n # None
    /\ Begin(p, what, "add", [loc[p] EXCEPT !.s = s, !.n = n, !.w = word[n]])
    /\ UNCHANGED <<head, word, alive, hand, shared, bad>>
AddCas(p) ==
    /\ On(p, "add")
    /\ LET n == loc[p].n
           c == loc[p].w
       IN  IF c.k # "count"
           THEN /\ bad' = TRUE /\ Goto(p, "idle") /\ UNCHANGED <<word, loc, hand>>
           ELSE IF Fault = "splitadd" \/ word[n] = c
           THEN /\ word' = [word EXCEPT ![n] = Count(c.x + 1)] /\ Give(p, n) /\ Goto(p, "idle") /\ UNCHANGED <<loc, bad>>
           ELSE /\ loc' = [loc EXCEPT ![p].w = word[n]] /\ UNCHANGED <<word, hand, pc, bad>>
    /\ UNCHANGED <<head, alive>> /\ Still

Next == \E p \in Threads :
    \/ \E s \in Slots : Alloc(p, s) \/ Drop(p, s) \/ Copy(p, s, hand[p][3 - s], <<"copy", s>>) \/ Copy(p, s, shared, <<"share", s>>)
    \/ AllocTop(p) \/ AllocTake(p) \/ AllocBuild(p) \/ DropCas(p) \/ Destroy(p) \/ FreeTop(p) \/ FreeLink(p) \/ FreeCas(p) \/ AddCas(p)

RECURSIVE FreeList(_, _)
FreeList(n, k) == IF n = None THEN <<>> ELSE IF k = 0 \/ word[n].k # "link" THEN <<n, n>> ELSE <<n>> \o FreeList(word[n].x, k - 1)
Free == FreeList(head.n, Cardinality(Nodes))
InFree == {Free[i] : i \in 1..Len(Free)}
Held(n) == {<<p, s>> \in Threads \X Slots : hand[p][s] = n} \cup (IF shared = n /\ n # None THEN {<<"shared", 0>>} ELSE {})
Idle == \A p \in Threads : pc[p] = "idle"
\* whoever holds a handle has a living object that is not free
Exclusive == \A n \in Nodes : Held(n) # {} => alive[n] /\ word[n].k = "count" /\ n \notin InFree
\* the free list has no cycle and nothing that lives; all counts are exact when nobody is at work
FreeOK == Len(Free) = Cardinality(InFree) /\ \A n \in InFree : ~alive[n]
Exact == Idle => \A n \in Nodes : /\ word[n].k = "count" => word[n].x = Cardinality(Held(n)) /\ word[n].x > 0
                                  /\ alive[n] = (Held(n) # {})
                                  /\ (n \in InFree) = (word[n].k = "link")
NoHistory == <<head, word, alive, hand, shared, pc, loc, left, bad>>
Right == ~bad
Wrong == bad \/ ~Exclusive \/ Len(Free) # Cardinality(InFree) \/ ~Exact
StopWhenWrong == Wrong => PrintT("GEN " \o ToJson([pre |-> pre, did |-> did])) /\ FALSE
=============================================================================
