------------------------------- MODULE MCRates -------------------------------
(* Laws of the averages on all short histories (with alpha = 1/2 or 1/4,   *)
(* exact), and generator of mark/read/advance histories.                   *)
EXTENDS Rates, Json

CONSTANTS Steps, Amounts, MaxLen, Laws
VARIABLES cmds, peak, idle, prev
allvars == <<vars, cmds, peak, idle, prev>>

Half == [alpha |-> Pow2(-1), beta |-> Pow2(-1)]
Quarter == [alpha |-> Pow2(-2), beta |-> Sub(One, Pow2(-2))]

Alphabet ==
    {[op |-> "adv", d |-> d] : d \in Steps}
    \cup {[op |-> "mark", h |-> h, amt |-> a] : h \in Handles, a \in Amounts}
    \cup {[op |-> "read", h |-> h, w |-> 1, const |-> c] : h \in Handles, c \in (IF Laws THEN {} ELSE BOOLEAN)}
    \cup {[op |-> "snap", h |-> h, const |-> c] : h \in Handles, c \in BOOLEAN}
    \cup {[op |-> o, h |-> h, g |-> g] : o \in {"copy"}, h \in {1}, g \in Handles \ {1}}
    \cup {[op |-> o, h |-> h, g |-> g] : o \in (IF Laws THEN {} ELSE {"assign"}), h \in Handles, g \in Handles}

MCInit == /\ \E i \in {2} : InitWith("ewma", i, 1, <<Half, Quarter>>, 4)
          /\ cmds = <<>>
          /\ peak = Zero      \* largest interval total seen by object 1
          /\ idle = TRUE      \* no mark on object 1 since prev was taken
          /\ prev = Zero      \* what object 1 last reported

Abstract(c) ==
    CASE c.op = "adv" -> Clock(now + c.d)
      [] c.op = "mark" -> Mark(c.h, FromInt(c.amt))
      [] c.op = "copy" -> ~obj[c.g].live /\ Copy(c.h, c.g)
      [] c.op = "assign" -> obj[c.g].live /\ Copy(c.h, c.g)
      [] OTHER -> Do(c)

MCNext ==
    IF ~obj[1].live THEN Create(1) /\ UNCHANGED <<cmds, peak, idle, prev>>
    ELSE \E c \in Alphabet :
      /\ Len(cmds) < MaxLen
      /\ Abstract(c)
      /\ cmds' = Append(cmds, c)
      /\ peak' = MaxOf(peak, obj'[1].avg[1].pend)
      /\ idle' = IF c.op = "mark" /\ c.h = 1 THEN FALSE ELSE IF c.op = "snap" /\ c.h = 1 THEN TRUE ELSE idle
      /\ prev' = IF c.op = "snap" /\ c.h = 1 THEN ret'[1].r ELSE prev

View == <<kind, now, obj, peak, idle, prev, Len(cmds)>>

\* the rate never leaves the range of the interval totals
InRange == Laws => \A w \in Windows : \A h \in Handles : obj[h].live =>
              /\ Le(Zero, obj[h].avg[w].rate)
              /\ (h = 1 => Le(obj[h].avg[w].rate, peak))
              /\ obj[h].avg[w].rate = obj[h].avg[w].mag
\* all windows saw the same marks
SamePending == Laws => \A h \in Handles : obj[h].live => obj[h].avg[1].pend = obj[h].avg[2].pend
\* reading through const changes nothing; idle readings never rise; one mark changes one object
Pure == [][LET c == cmds'[Len(cmds')] IN
             cmds' # cmds =>
               /\ ((c.op \in {"read", "snap"} /\ c.const) => obj' = obj)
               /\ ((Laws /\ c.op = "snap" /\ c.h = 1 /\ idle) => Le(prev', prev))
               /\ \A h \in Handles : (c.op \in {"mark", "read", "snap"} /\ c.h # h) => obj'[h] = obj[h]]_allvars

Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<vars, peak, idle, prev>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/ PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen)]))
=============================================================================
