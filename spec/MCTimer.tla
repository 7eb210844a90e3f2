------------------------------- MODULE MCTimer -------------------------------
(* Scoped timers: each scope's duty to log is discharged exactly once.     *)
EXTENDS Rates, Json

CONSTANTS MaxLen, Waits
VARIABLES cmds, c, duty
allvars == <<vars, cmds, c, duty>>

Quarter == [alpha |-> Pow2(-2), beta |-> Sub(One, Pow2(-2))]
MCInit == /\ InitWith("timer", 2, 1, <<Quarter>>, 8)
          /\ cmds = <<>> /\ c = 0
          /\ duty = 0         \* logs that must have happened: non-zero durations of closed, uncleared scopes

Alphabet ==
    {[op |-> "wait", d |-> d] : d \in Waits}
    \cup {[op |-> o, s |-> s] : o \in {"open", "reset", "clear", "close"}, s \in Scopes}
    \cup {[op |-> "moves", s |-> s, u |-> u] : s \in Scopes, u \in Scopes}

MCNext ==
    IF ~obj[1].live THEN Create(1) /\ UNCHANGED <<cmds, c, duty>>
    ELSE \E k \in Alphabet :
      /\ Len(cmds) < MaxLen
      /\ CASE k.op = "wait"  -> UNCHANGED vars
           [] k.op = "open"  -> ~scope[k.s].live /\ Open(k.s, 1, c)
           [] k.op = "reset" -> ResetScope(k.s, c)
           [] k.op = "clear" -> ClearScope(k.s)
           [] k.op = "close" -> CloseScope(k.s, c)
           [] k.op = "moves" -> MoveScope(k.s, k.u)
      /\ c' = IF k.op = "wait" THEN c + k.d ELSE c
      /\ duty' = IF k.op = "close" /\ scope[k.s].set /\ c # scope[k.s].start THEN duty + 1 ELSE duty
      /\ cmds' = Append(cmds, k)
View == <<obj, scope, c, duty, Len(cmds)>>

Count == obj[1].live =>
    /\ obj[1].count = duty
    /\ obj[1].total = FromInt(duty)
    /\ Len(obj[1].items) = (IF duty < cap THEN duty ELSE cap)
    /\ \A i \in 1..Len(obj[1].items) : obj[1].items[i] # 0

Finish == Len(cmds) = MaxLen /\ cmds' = Append(cmds, "end") /\ UNCHANGED <<vars, c, duty>>
GenNext == MCNext \/ Finish
Emit == Len(cmds) <= MaxLen \/
        PrintT("GEN " \o ToJson([cmds |-> SubSeq(cmds, 1, MaxLen), open |-> {s \in Scopes : scope[s].live}]))
=============================================================================
