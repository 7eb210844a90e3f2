-------------------------------- MODULE Skip --------------------------------
(***************************************************************************)
(* A sorted set and iterators over it (P26).  Elements have a key, which    *)
(* orders them, and a tag, which the comparison does not look at.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Iters
VARIABLES elems,  \* the set of elements [key, tag, id]; keys are distinct, ids are never used twice
          used,   \* ids used
          its,    \* its[i]: the id of the element iterator i is at, 0 at the end, NoWhere if undefined
          down,   \* descending order
          sret
svars == <<elems, used, its, down, sret>>
NoWhere == 0 - 1
SInit == elems = {} /\ used = 0 /\ its = [i \in Iters |-> NoWhere] /\ down = FALSE /\ sret = [k |-> "init"]

Has(k) == \E x \in elems : x.key = k
Of(k) == CHOOSE x \in elems : x.key = k
Here(n) == \E x \in elems : x.id = n
OfId(n) == CHOOSE x \in elems : x.id = n
Before(a, b) == IF down THEN a > b ELSE a < b
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x.key, y.key)
                  IN  <<m>> \o Sorted(S \ {m})
First(S) == IF S = {} THEN 0 ELSE (CHOOSE x \in S : \A y \in S \ {x} : Before(x.key, y.key)).id
Ret(b) == sret' = [k |-> "bool", b |-> b]
Ok == sret' = [k |-> "ok"]

New(d) == elems' = {} /\ used' = used /\ its' = [i \in Iters |-> NoWhere] /\ down' = d /\ Ok
Insert(k, t) ==
    /\ IF Has(k) THEN UNCHANGED <<elems, used>>
       ELSE elems' = elems \cup {[key |-> k, tag |-> t, id |-> used + 1]} /\ used' = used + 1
    /\ Ret(~Has(k)) /\ UNCHANGED <<its, down>>
Erase(k) == elems' = {x \in elems : x.key # k} /\ Ret(Has(k)) /\ UNCHANGED <<used, its, down>>
Find(k, i) ==
    /\ its' = [its EXCEPT ![i] = IF Has(k) THEN Of(k).id ELSE 0]
    /\ sret' = [k |-> "elem", v |-> IF Has(k) THEN <<Of(k).key, Of(k).tag>> ELSE <<>>] /\ UNCHANGED <<elems, used, down>>
Begin(i) == its' = [its EXCEPT ![i] = First(elems)] /\ Ok /\ UNCHANGED <<elems, used, down>>
\* an iterator at an element of the set moves to the next one there is now; at the end it stays
Step(i) ==
    /\ its[i] = 0 \/ Here(its[i])
    /\ its' = [its EXCEPT ![i] = IF its[i] = 0 THEN 0 ELSE First({x \in elems : Before(OfId(its[i]).key, x.key)})]
    /\ Ok /\ UNCHANGED <<elems, used, down>>
Copy(i, j) == its' = [its EXCEPT ![j] = its[i]] /\ Ok /\ UNCHANGED <<elems, used, down>>
Get(i) ==
    /\ its[i] = 0 \/ Here(its[i])
    /\ sret' = [k |-> "elem", v |-> IF its[i] = 0 THEN <<>> ELSE <<OfId(its[i]).key, OfId(its[i]).tag>>]
    /\ UNCHANGED <<elems, used, its, down>>
Equal(i, j) == its[i] # NoWhere /\ its[j] # NoWhere /\ Ret(its[i] = its[j]) /\ UNCHANGED <<elems, used, its, down>>
\* removes exactly the element the iterator is at, if it is still there
EraseAt(i) == /\ its[i] # NoWhere /\ elems' = {x \in elems : x.id # its[i]} /\ Ret(its[i] # 0 /\ Here(its[i]))
              /\ UNCHANGED <<used, its, down>>
List == sret' = [k |-> "list", v |-> LET q == Sorted(elems) IN [n \in 1..Len(q) |-> <<q[n].key, q[n].tag>>]]
        /\ UNCHANGED <<elems, used, its, down>>
\* a walk that removes, as it goes, the elements whose key leaves remainder r when divided by m
Sweep(m, r) == /\ elems' = {x \in elems : x.key % m # r}
               /\ sret' = [k |-> "list", v |-> LET q == Sorted(elems) IN [n \in 1..Len(q) |-> <<q[n].key, q[n].tag>>]]
               /\ UNCHANGED <<used, its, down>>

Do(c) ==
    CASE c.op = "new" -> New(c.down)
      [] c.op = "ins" -> Insert(c.k, c.t)
      [] c.op = "del" -> Erase(c.k)
      [] c.op = "find" -> Find(c.k, c.i)
      [] c.op = "begin" -> Begin(c.i)
      [] c.op = "step" -> Step(c.i)
      [] c.op = "icopy" -> Copy(c.i, c.j)
      [] c.op = "get" -> Get(c.i)
      [] c.op = "ieq" -> Equal(c.i, c.j)
      [] c.op = "delat" -> EraseAt(c.i)
      [] c.op = "list" -> List
      [] c.op = "sweep" -> Sweep(c.m, c.r)
Agrees(e) ==
    CASE e.op \in {"ins", "del", "delat", "ieq"} -> e.ret = sret'.b
      [] e.op \in {"find", "get", "list"} -> e.ret = sret'.v
      [] e.op = "sweep" -> e.all /\ e.ret = sret'.v
      [] OTHER -> TRUE
=============================================================================
