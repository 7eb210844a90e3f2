--------------------------- MODULE MCReservoir ---------------------------
(* Exhaustive check of Reservoir against the full recording history, and  *)
(* generator of command sequences for the conformance tests.              *)
EXTENDS Reservoir, Json, IOUtils

CONSTANTS Kinds, Caps, Wins, Others, Vals,   \* Others: windows of reservoirs created later
          Times, MaxLen,
          Reads     \* include pure reads in the command alphabet?
VARIABLES log,     \* log[h]: every sample ever recorded in h (through copies)
          cmds,    \* commands so far
          win0     \* the window of object 1 to begin with

allvars == <<vars, log, cmds, win0>>
Alphabet ==
    {[op |-> "update", h |-> h, v |-> v] : h \in Handles, v \in Vals}
    \cup (IF Reads THEN {[op |-> o, h |-> h] : o \in {"snap", "ring"}, h \in Handles} ELSE {})
    \cup {[op |-> "copy", h |-> h, g |-> g] : h \in {1}, g \in Handles \ {1}}
    \cup {[op |-> "assign", h |-> h, g |-> g] : h \in Handles, g \in Handles}
    \cup {[op |-> "fresh", g |-> g, w |-> w] : g \in Handles \ {1}, w \in Others}
    \cup {[op |-> "clock", t |-> t] : t \in Times}

MCInit == /\ \E k \in Kinds, c \in Caps, w \in Wins : InitWith(k, c, w) /\ win0 = w
          /\ log = [h \in Handles |-> <<>>]
          /\ cmds = <<>>

MCNext == \E c \in Alphabet :
    /\ Len(cmds) < MaxLen
    /\ (c.op = "clock" => kind = "window" /\ c.t # now)
    /\ (c.op \in {"copy", "fresh"} => ~box[c.g].live)
    /\ Do(c) /\ win0' = win0
    /\ cmds' = Append(cmds, c)
    /\ log' = CASE c.op = "update" -> [log EXCEPT ![c.h] = Append(@, [v |-> c.v, t |-> now])]
                [] c.op \in {"copy", "assign"} -> [log EXCEPT ![c.g] = log[c.h]]
                [] c.op = "fresh" -> [log EXCEPT ![c.g] = <<>>]
                [] OTHER -> log

View == <<kind, cap, now, box, log>>

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
\* P08 / P11: exactly the last cap samples, of which those inside the window are visible
LastN == kind # "uniform" => \A h \in Handles : box[h].items = LastOf(log[h], cap)
\* P10: bounded sub-multiset of what was recorded
NothingInvented == kind = "uniform" => \A h \in Handles : \A v \in Vals :
              Count(Values(box[h].items), v) <= Count(Values(log[h]), v)
\* P13: the count is every update
CountLaw == \A h \in Handles : box[h].n = Len(log[h])
\* every update past capacity keeps the new value
NewestHeld == \A h \in Handles : log[h] # <<>> =>
              \E i \in 1..Len(box[h].items) : box[h].items[i].v = log[h][Len(log[h])].v
WindowLaw == \A h \in Handles : \A i \in 1..Len(Visible(box[h], now)) :
              kind = "window" => now - Visible(box[h], now)[i].t <= box[h].win

\* generator: print complete behaviours, once each (simulation evaluates constraints on every successor)
Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<vars, log, win0>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/
        PrintT("GEN " \o ToJson([kind |-> kind, cap |-> cap, win |-> win0, cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
