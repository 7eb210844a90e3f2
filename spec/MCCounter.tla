------------------------------ MODULE MCCounter ------------------------------
(* Laws of the counter on all short histories, and generator of them.       *)
EXTENDS Counter, Json

CONSTANTS Types, Amounts, MaxLen, Ops
VARIABLES cmds,
          total     \* total[h]: the exact, unwrapped sum of what counter h should hold
allvars == <<cvars, cmds, total>>

Lives == {h \in Counters : Live(h)}
Dead == Counters \ Lives
Ty == ctr[1].ty
A(a) == FromInt(a)
Cmd(o) ==
    CASE o \in {"incr", "set", "subas", "addas"} ->
             {[op |-> o, h |-> h, by |-> A(a)] : h \in Lives, a \in {x \in Amounts : In(A(x), Widths[Ty])}}
      [] o \in {"preinc", "predec", "postinc", "cval"} -> {[op |-> o, h |-> h] : h \in Lives}
      [] o \in {"ccopy", "cmove"} -> {[op |-> o, h |-> h, g |-> g] : h \in Lives, g \in Dead}
      [] o \in {"cassign", "cmassign"} -> {[op |-> o, h |-> h, g |-> g] : h \in Lives, g \in Lives}

MCInit == /\ \E ty \in Types : ctr = [h \in Counters |-> IF h = 1 THEN [ty |-> ty, v |-> Zero] ELSE [ty |-> "none"]]
          /\ cret = Zero /\ cmds = <<>> /\ total = [h \in Counters |-> Zero]
MCNext == /\ Len(cmds) < MaxLen
          /\ \E o \in Ops : \E c \in Cmd(o) :
                /\ ~(c.op = "cmassign" /\ c.h = c.g)
                /\ Do(c) /\ cmds' = Append(cmds, c)
                /\ total' = CASE c.op \in {"incr", "addas"} -> [total EXCEPT ![c.h] = Add(@, c.by)]
                              [] c.op = "subas" -> [total EXCEPT ![c.h] = Sub(@, c.by)]
                              [] c.op \in {"preinc", "postinc"} -> [total EXCEPT ![c.h] = Add(@, One)]
                              [] c.op = "predec" -> [total EXCEPT ![c.h] = Sub(@, One)]
                              [] c.op = "set" -> [total EXCEPT ![c.h] = c.by]
                              [] c.op \in {"ccopy", "cassign"} -> [total EXCEPT ![c.g] = total[c.h]]
                              [] c.op \in {"cmove", "cmassign"} -> [total EXCEPT ![c.g] = total[c.h], ![c.h] = Zero]
                              [] OTHER -> total
View == <<ctr, total, Len(cmds)>>
\* the value is the exact total up to whole turns of the counter's own width
Modular == \A h \in Lives : \E k \in (0 - MaxLen)..MaxLen :
              total[h] = Add(ctr[h].v, MulInt(Pow2(Widths[ctr[h].ty].bits), k))

Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<cvars, total>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([ty |-> ctr[1].ty, cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
