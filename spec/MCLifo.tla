------------------------------- MODULE MCLifo -------------------------------
(* Laws of the stack on all short histories, and generator of them.         *)
EXTENDS Lifo, Json
CONSTANT MaxLen
VARIABLES cmds, put     \* put: values given to the stacks so far and the ones destroyed since
allvars == <<lvars, cmds, put>>
N == Len(cmds) + 1
Up == {s \in Stacks : There(s)}
Down == Stacks \ Up
Full == {p \in Ptrs : held[p] # <<>>}
Ops == {[op |-> "lnew", h |-> s] : s \in Down}
       \cup {[op |-> o, h |-> s, vs |-> <<N * 10, N * 10 + 1, N * 10 + 2>>] : o \in {"llist", "lrange"}, s \in Down}
       \cup {[op |-> "push", h |-> s, v |-> N * 10] : s \in Up}
       \cup {[op |-> "pop", h |-> s, p |-> p] : s \in Up, p \in Ptrs}
       \cup {[op |-> "make", h |-> s, p |-> p, v |-> N * 10] : s \in Up, p \in Ptrs \ Full}
       \cup {[op |-> "back", h |-> s, p |-> p] : s \in Up, p \in Ptrs}
       \cup {[op |-> "drop", p |-> p] : p \in Full}
       \cup {[op |-> "give", p |-> x[1], q |-> x[2]] : x \in {y \in Ptrs \X Ptrs : y[1] # y[2]}}
       \cup {[op |-> "lmove", h |-> s, g |-> t] : s \in Up, t \in Down}
       \cup {[op |-> "lkill", h |-> s] : s \in Up}
Range(q) == {q[i] : i \in 1..Len(q)}
Everything == UNION ({Range(stk[s]) : s \in Up} \cup {Range(held[p]) : p \in Ptrs})
Given(c) == CASE c.op \in {"llist", "lrange"} -> Range(c.vs) [] c.op \in {"push", "make"} -> {c.v} [] OTHER -> {}
MCInit == /\ stk = [s \in Stacks |-> IF s = 1 THEN <<>> ELSE NoStack] /\ held = [p \in Ptrs |-> <<>>]
          /\ lret = [k |-> "init"] /\ cmds = <<>> /\ put = {}
MCNext == Len(cmds) < MaxLen /\ \E c \in Ops :
    /\ Do(c) /\ cmds' = Append(cmds, c)
    /\ put' = (put \cup Given(c)) \cap Everything'
View == <<stk, held, Len(cmds)>>

\* nothing is duplicated: all values given are distinct, so is everything there is
NoDup == Alive = Cardinality(Everything)
\* nothing appears out of nowhere, and only destroying a stack or letting go of a pointer loses anything
OnlyGiven == Everything \subseteq put
Lets(c) == \/ c.op \in {"lkill", "drop"}
           \/ c.op = "pop" /\ held[c.p] # <<>>
           \/ c.op = "give" /\ held[c.q] # <<>>
Kept == Len(cmds') = Len(cmds) \/ Lets(cmds'[Len(cmds')]) \/ Everything \subseteq Everything'
NoLoss == [][Kept]_allvars
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<lvars, put>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
