-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Pooled objects and the handles that own them together (P25).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Handles
VARIABLES own,    \* own[h]: the object handle h owns, 0 for a null handle
          val,    \* val[o]: the value of object o, in the order they were handed out
          peak,   \* the most objects alive at any time
          pret
pvars == <<own, val, peak, pret>>

PInit == own = [h \in Handles |-> 0] /\ val = <<>> /\ peak = 0 /\ pret = [k |-> "init"]
Objects(f) == {f[h] : h \in Handles} \ {0}
Alive == Cardinality(Objects(own))
Ok == pret' = [k |-> "ok"]
More(n) == peak' = IF n > peak THEN n ELSE peak
Same == UNCHANGED <<val, peak>>

\* an object of its own, with the requested value; what h owned before is let go afterwards
Alloc(h, v) == own' = [own EXCEPT ![h] = Len(val) + 1] /\ val' = Append(val, v) /\ More(Alive + 1) /\ Ok
Share(h, g) == own' = [own EXCEPT ![g] = own[h]] /\ Ok /\ Same
\* a handle moved onto itself may keep its object or let go of it
Give(h, g) == /\ IF h = g THEN own' = own \/ own' = [own EXCEPT ![h] = 0]
                          ELSE own' = [own EXCEPT ![g] = own[h], ![h] = 0]
              /\ Ok /\ Same
Drop(h) == own' = [own EXCEPT ![h] = 0] /\ Ok /\ Same
\* r takes what h owned, h shares what n owns
Exchange(h, n, r) == own' = [own EXCEPT ![h] = own[n], ![r] = own[h]] /\ Ok /\ Same
\* if h owns what e owns it shares what n owns, otherwise e shares what h owns
CompareExchange(h, e, n) ==
    /\ IF own[h] = own[e]
       THEN own' = [own EXCEPT ![h] = own[n]] /\ pret' = [k |-> "cas", b |-> TRUE]
       ELSE own' = [own EXCEPT ![e] = own[h]] /\ pret' = [k |-> "cas", b |-> FALSE]
    /\ Same
Get(h) == pret' = [k |-> "get", v |-> IF own[h] = 0 THEN <<>> ELSE <<val[own[h]]>>] /\ UNCHANGED own /\ Same
Put(h, v) == val' = (IF own[h] = 0 THEN val ELSE [val EXCEPT ![own[h]] = v]) /\ Ok /\ UNCHANGED <<own, peak>>
Compare(h, g) == pret' = [k |-> "eq", b |-> own[h] = own[g]] /\ UNCHANGED own /\ Same
\* every object owned is alive, no other; storage is handed out again, so there is never more than was in use at once
Count == pret' = [k |-> "alive", n |-> Alive, m |-> peak] /\ UNCHANGED own /\ Same
\* all handles go, then the pool: no object and no storage is left
Close == own' = [h \in Handles |-> 0] /\ pret' = [k |-> "alive", n |-> 0, m |-> 0] /\ Same

Do(c) ==
    CASE c.op = "alloc" -> Alloc(c.h, c.v)
      [] c.op \in {"copy", "assign"} -> Share(c.h, c.g)
      [] c.op \in {"move", "massign"} -> Give(c.h, c.g)
      [] c.op \in {"drop", "null"} -> Drop(c.h)
      [] c.op = "xchg" -> Exchange(c.h, c.g, c.r)
      [] c.op = "cas" -> CompareExchange(c.h, c.g, c.r)
      [] c.op = "get" -> Get(c.h)
      [] c.op = "put" -> Put(c.h, c.v)
      [] c.op = "eq" -> Compare(c.h, c.g)
      [] c.op = "alive" -> Count
      [] c.op = "close" -> Close
Agrees(e) ==
    CASE e.op = "get" -> e.ret = pret'.v
      [] e.op \in {"eq", "cas"} -> e.ret = pret'.b
      [] e.op = "alive" -> e.objects = pret'.n /\ e.blocks >= pret'.n /\ (e.par \/ e.blocks <= pret'.m)
      [] e.op = "close" -> e.objects = 0 /\ e.blocks = 0
      [] OTHER -> TRUE
=============================================================================
