------------------------------- MODULE MCGauge -------------------------------
(* Laws of gauges on all short histories, and generator of them.            *)
EXTENDS Gauge, Json

CONSTANTS Kinds, MaxLen
VARIABLES cmds, k0    \* k0: the kind of all gauges of this family
allvars == <<gvars, cmds, k0>>
Lives == {g \in Gauges : Live(g)}
Dead == {g \in Gauges : gau[g].kind = "none"}
Next_ == Len(cmds) + 1       \* every value set is a new one
Ops == {[op |-> "gset", g |-> g, v |-> Next_] : g \in {x \in Lives : gau[x].kind = "plain"}}
       \cup {[op |-> "gsrc", s |-> s, v |-> Next_] : s \in Sources}
       \cup {[op |-> "gcopy", g |-> g, h |-> h] : g \in Lives, h \in Dead}
       \cup {[op |-> "gmove", g |-> g, h |-> h] : g \in Lives, h \in Dead}
       \cup {[op |-> "gassign", g |-> g, h |-> h] : g \in Lives, h \in Gauges \ Dead}
       \cup {[op |-> "gmassign", g |-> g, h |-> h] : g \in Lives, h \in Gauges \ Dead}
       \cup {[op |-> "gnew", g |-> g, kind |-> k0, agg |-> "avg", v |-> Next_, src |-> s] : g \in Dead, s \in {2}}
MCInit == \E k \in Kinds :
    /\ gau = [g \in Gauges |-> IF g = 1 THEN [kind |-> k, agg |-> "avg", v |-> 0, src |-> IF k = "plain" THEN 0 ELSE 1] ELSE Nothing]
    /\ var = [s \in Sources |-> 0] /\ gret = [k |-> "init"] /\ cmds = <<>> /\ k0 = k
MCNext == Len(cmds) < MaxLen /\ \E c \in Ops :
    Do(c) /\ cmds' = Append(cmds, c) /\ k0' = k0
View == <<gau, var, Len(cmds), k0>>

\* setting one plain gauge changes no other; setting a variable changes exactly the gauges that read it
Independent == [][\A g \in Gauges : (Live(g) /\ gau'[g] = gau[g]) =>
                    LET before == Value(g)
                        after == IF gau'[g].kind = "plain" THEN gau'[g].v ELSE var'[gau'[g].src]
                    IN  after # before => \E s \in Sources : var'[s] # var[s] /\ gau[g].src = s]_allvars
\* in one family all gauges have one kind
OneKind == \A g \in Lives : gau[g].kind = k0

Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<gvars, k0>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([k0 |-> k0, cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
