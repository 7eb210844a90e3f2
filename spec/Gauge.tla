-------------------------------- MODULE Gauge --------------------------------
(***************************************************************************)
(* Gauges (P28): of a plain value, or reading a variable through a         *)
(* function, a pointer or a reference.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Gauges, Sources
VARIABLES gau,    \* gau[g] = [kind, agg, v (plain) , src]; kind "none" before creation, "moved" after a move
          var,    \* the variables
          gret
gvars == <<gau, var, gret>>

Nothing == [kind |-> "none", agg |-> "avg", v |-> 0, src |-> 0]
GInit(zero) == gau = [g \in Gauges |-> Nothing] /\ var = [s \in Sources |-> zero] /\ gret = [k |-> "init"]
Live(g) == gau[g].kind \in {"plain", "fn", "ptr", "ref"}
Value(g) == IF gau[g].kind = "plain" THEN gau[g].v ELSE var[gau[g].src]
Ok == gret' = [k |-> "ok"]

New(g, kind, agg, v, s) ==
    gau' = [gau EXCEPT ![g] = [kind |-> kind, agg |-> agg, v |-> v, src |-> s]] /\ Ok /\ UNCHANGED var
Set(g, v) == gau[g].kind = "plain" /\ gau' = [gau EXCEPT ![g].v = v] /\ Ok /\ UNCHANGED var
SetVar(s, v) == var' = [var EXCEPT ![s] = v] /\ Ok /\ UNCHANGED gau
Get(g) == Live(g) /\ gret' = [k |-> "get", v |-> Value(g)] /\ UNCHANGED <<gau, var>>
\* a snapshot holds the same value and aggregates in the gauge's own mode
Snap(g) == Live(g) /\ gret' = [k |-> IF gau[g].agg = "sum" THEN "cum" ELSE "avg", v |-> Value(g)] /\ UNCHANGED <<gau, var>>
\* h becomes what g is: a plain value of its own, or a view of the same source
Become(g, h) == Live(g) /\ gau' = [gau EXCEPT ![h] = gau[g]] /\ Ok /\ UNCHANGED var
\* after moving, nothing is promised about g unless it refers to a variable by pointer or reference
Taken(g) == IF gau[g].kind \in {"ptr", "ref"} THEN gau[g] ELSE [gau[g] EXCEPT !.kind = "moved"]
MoveTo(g, h) == Live(g) /\ g # h /\ gau' = [gau EXCEPT ![h] = gau[g], ![g] = Taken(g)] /\ Ok /\ UNCHANGED var

Do(c) ==
    CASE c.op = "gnew" -> New(c.g, c.kind, c.agg, c.v, c.src)
      [] c.op = "gset" -> Set(c.g, c.v)
      [] c.op = "gsrc" -> SetVar(c.s, c.v)
      [] c.op = "gget" -> Get(c.g)
      [] c.op = "gsnap" -> Snap(c.g)
      [] c.op \in {"gcopy", "gassign"} -> Become(c.g, c.h)
      [] c.op \in {"gmove", "gmassign"} -> MoveTo(c.g, c.h)
=============================================================================
