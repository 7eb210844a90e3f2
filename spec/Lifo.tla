-------------------------------- MODULE Lifo --------------------------------
(***************************************************************************)
(* Last-in-first-out stacks and the pointers to elements taken off them    *)
(* (P24).                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Stacks, Ptrs
VARIABLES stk,    \* stk[s]: <<values>>, the top first, or NoStack
          held,   \* held[p]: <<value>>, or <<>> for a null pointer
          lret
lvars == <<stk, held, lret>>

NoStack == <<0 - 1>>     \* values are not negative
LInit == stk = [s \in Stacks |-> NoStack] /\ held = [p \in Ptrs |-> <<>>] /\ lret = [k |-> "init"]
There(s) == stk[s] # NoStack
Ok == lret' = [k |-> "ok"]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

New(s) == ~There(s) /\ stk' = [stk EXCEPT ![s] = <<>>] /\ Ok /\ UNCHANGED held
\* from a list the first element ends on top; from a range the elements are pushed in order
FromList(s, q) == ~There(s) /\ stk' = [stk EXCEPT ![s] = q] /\ Ok /\ UNCHANGED held
FromRange(s, q) == ~There(s) /\ stk' = [stk EXCEPT ![s] = Rev(q)] /\ Ok /\ UNCHANGED held
Push(s, v) == There(s) /\ stk' = [stk EXCEPT ![s] = <<v>> \o @] /\ Ok /\ UNCHANGED held
Pop(s, p) ==
    /\ There(s)
    /\ IF stk[s] = <<>>
       THEN held' = [held EXCEPT ![p] = <<>>] /\ lret' = [k |-> "pop", v |-> <<>>] /\ UNCHANGED stk
       ELSE /\ held' = [held EXCEPT ![p] = <<Head(stk[s])>>]
            /\ stk' = [stk EXCEPT ![s] = Tail(@)]
            /\ lret' = [k |-> "pop", v |-> <<Head(stk[s])>>]
Make(s, p, v) == There(s) /\ held' = [held EXCEPT ![p] = <<v>>] /\ Ok /\ UNCHANGED stk
\* an element taken off goes back on a stack; the pointer becomes null
Back(s, p) ==
    /\ There(s) /\ held' = [held EXCEPT ![p] = <<>>] /\ Ok
    /\ stk' = [stk EXCEPT ![s] = held[p] \o @]
Drop(p) == held' = [held EXCEPT ![p] = <<>>] /\ Ok /\ UNCHANGED stk
Give(p, q) == p # q /\ held' = [held EXCEPT ![q] = held[p], ![p] = <<>>] /\ Ok /\ UNCHANGED stk
Put(p, v) == held' = [held EXCEPT ![p] = IF @ = <<>> THEN <<>> ELSE <<v>>] /\ Ok /\ UNCHANGED stk
Peek(p) == lret' = [k |-> "peek", v |-> held[p]] /\ UNCHANGED <<stk, held>>
Move(s, t) == There(s) /\ ~There(t) /\ stk' = [stk EXCEPT ![t] = stk[s], ![s] = <<>>] /\ Ok /\ UNCHANGED held
Destroy(s) == There(s) /\ stk' = [stk EXCEPT ![s] = NoStack] /\ Ok /\ UNCHANGED held
\* exactly the elements on stacks and held are alive
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN (IF There(s) THEN Len(stk[s]) ELSE 0) + SumLen(S \ {s})
Alive == SumLen(Stacks) + Cardinality({p \in Ptrs : held[p] # <<>>})
CountAlive == lret' = [k |-> "alive", n |-> Alive] /\ UNCHANGED <<stk, held>>
\* everything goes
Close == /\ held' = [p \in Ptrs |-> <<>>] /\ stk' = [s \in Stacks |-> NoStack] /\ lret' = [k |-> "alive", n |-> 0]

Do(c) ==
    CASE c.op = "lnew" -> New(c.h)
      [] c.op = "llist" -> FromList(c.h, c.vs)
      [] c.op = "lrange" -> FromRange(c.h, c.vs)
      [] c.op \in {"push", "emplace"} -> Push(c.h, c.v)
      [] c.op = "pop" -> Pop(c.h, c.p)
      [] c.op = "make" -> Make(c.h, c.p, c.v)
      [] c.op = "back" -> Back(c.h, c.p)
      [] c.op = "drop" -> Drop(c.p)
      [] c.op = "give" -> Give(c.p, c.q)
      [] c.op = "put" -> Put(c.p, c.v)
      [] c.op = "peek" -> Peek(c.p)
      [] c.op = "lmove" -> Move(c.h, c.g)
      [] c.op = "lkill" -> Destroy(c.h)
      [] c.op = "alive" -> CountAlive
      [] c.op = "close" -> Close
Agrees(e) ==
    CASE e.op \in {"pop", "peek"} -> e.ret = lret'.v
      [] e.op \in {"alive", "close"} -> e.objects = lret'.n /\ e.blocks = lret'.n
      [] OTHER -> TRUE
=============================================================================
