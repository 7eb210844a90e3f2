-------------------------------- MODULE Rates --------------------------------
(***************************************************************************)
(* Moving averages, meters and timers under a clock (P14, P16, P17).       *)
(*                                                                         *)
(* An average closes an interval at the first mark or writing read that    *)
(* finds at least one interval elapsed since the previous closing.  The    *)
(* first closed interval sets the rate to its total, every later one moves *)
(* it by the fraction alpha = 1 - exp(-I/(2W)) towards its total, and each *)
(* further whole interval elapsed multiplies it by 1 - alpha.              *)
(* Amounts and rates are exact dyadic numbers cut to 12 limbs.             *)
(***************************************************************************)
EXTENDS Dyadic, FiniteSets, TLC

CONSTANTS Handles, Scopes
VARIABLES
    kind,       \* "ewma" | "meter" | "timer"
    ival,       \* the interval, in clock units
    per,        \* intervals in a clock unit, where an interval is shorter than one (then ival = 1); else 1
    coef,       \* coef[w] = [alpha, beta]: smoothing of the w-th window
    cap,        \* capacity of a timer's last-N reservoir
    now, obj, scope, ret
vars == <<kind, ival, per, coef, cap, now, obj, scope, ret>>

Cut(x) == IF x[1] \in {0, 2, -2} THEN x ELSE Chop(x, Hi(x) - 12)
One == FromInt(1)

\* exp(-p/q) by its Taylor series, to about 100 bits
RECURSIVE ExpTerms(_, _, _, _, _)
ExpTerms(term, sum, p, q, n) ==
    IF n > 60 \/ term = Zero THEN sum
    ELSE LET t == Neg(DivSmall(DivSmall(MulInt(term, p), q, -10), n, -10))
         IN  ExpTerms(t, Add(sum, t), p, q, n + 1)
ExpMinus(p, q) == ExpTerms(One, One, p, q, 1)
Coef(p, q) == LET b == ExpMinus(p, q) IN [alpha |-> Sub(One, b), beta |-> b]

RECURSIVE PowCut(_, _)
PowCut(b, n) == IF n = 0 THEN One
                ELSE LET h == PowCut(b, n \div 2)
                         s == Cut(Mul(h, h))
                     IN  IF n % 2 = 1 THEN Cut(Mul(s, b)) ELSE s

-----------------------------------------------------------------------------
\* one moving average; mag and pmag run the same law on absolute amounts and bound rounding errors
Fresh(t) == [rate |-> Zero, pend |-> Zero, mag |-> Zero, pmag |-> Zero, last |-> t, ticked |-> FALSE]

\* Tick(e, t, w, write): the average after the update, what is reported, and its magnitude
Tick(e, t, w, write) ==
    IF t < e.last THEN [e |-> e, r |-> e.rate, m |-> e.mag]
    ELSE IF ~e.ticked
    THEN IF t - e.last < ival \/ ~write
         THEN [e |-> e, r |-> e.pend, m |-> e.pmag]
         ELSE [e |-> [rate |-> e.pend, pend |-> Zero, mag |-> e.pmag, pmag |-> Zero, last |-> t, ticked |-> TRUE],
               r |-> e.pend, m |-> e.pmag]
    ELSE LET k == (t - e.last) \div ival
             \* k * per intervals have gone by: k * per - 1 of them were idle
             decay == IF k = 0 THEN One
                      ELSE IF per = 1 THEN PowCut(coef[w].beta, k - 1)
                      ELSE Cut(Mul(PowCut(PowCut(coef[w].beta, per), k - 1), PowCut(coef[w].beta, per - 1)))
             r == Cut(Mul(decay, Add(Mul(coef[w].beta, e.rate), Mul(coef[w].alpha, e.pend))))
             m == Cut(Mul(decay, Add(Mul(coef[w].beta, e.mag), Mul(coef[w].alpha, e.pmag))))
         IN  [e |-> IF write /\ k >= 1
                    THEN [rate |-> r, pend |-> Zero, mag |-> m, pmag |-> Zero, last |-> t, ticked |-> TRUE]
                    ELSE e,
              r |-> r, m |-> m]

MarkAvg(e, t, w, amt) ==
    IF t < e.last THEN e
    ELSE LET x == Tick(e, t, w, TRUE).e
         IN  [x EXCEPT !.pend = Add(@, amt), !.pmag = Add(@, Abs(amt))]

-----------------------------------------------------------------------------
\* an object: one average per window, a meter's total and start, a timer's count and samples
Windows == DOMAIN coef
Absent == [live |-> FALSE]
New(t) == [live |-> TRUE, avg |-> [w \in Windows |-> Fresh(t)],
           started |-> FALSE, start |-> 0, total |-> Zero, count |-> 0, items |-> <<>>]

InitWith(k, i, p, cs, c) ==
    /\ kind = k /\ ival = i /\ per = p /\ coef = cs /\ cap = c
    /\ now = 0
    /\ obj = [h \in Handles |-> Absent]
    /\ scope = [s \in Scopes |-> [live |-> FALSE]]
    /\ ret = <<>>

MarkObj(o, amt) ==
    [o EXCEPT !.avg = [w \in Windows |-> MarkAvg(o.avg[w], now, w, amt)],
              !.total = Add(@, amt),
              !.started = TRUE,
              !.start = IF o.started THEN @ ELSE now]

Config == UNCHANGED <<kind, ival, per, coef, cap>>

Clock(t) == now' = t /\ ret' = <<>> /\ Config /\ UNCHANGED <<obj, scope>>
Create(h) == obj' = [obj EXCEPT ![h] = New(now)] /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, scope>>
Copy(h, g) == obj[h].live /\ obj' = [obj EXCEPT ![g] = obj[h]] /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, scope>>

Mark(h, amt) ==
    /\ obj[h].live /\ kind # "timer"
    /\ obj' = [obj EXCEPT ![h] = MarkObj(@, amt)]
    /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, scope>>

\* reading the rates ws of h; a reading through a const object changes nothing
Read(h, ws, const) ==
    LET t == [w \in ws |-> Tick(obj[h].avg[w], now, w, ~const)] IN
    /\ obj[h].live
    /\ obj' = IF const THEN obj
              ELSE [obj EXCEPT ![h].avg = [w \in Windows |-> IF w \in ws THEN t[w].e ELSE @[w]]]
    /\ ret' = [w \in ws |-> [r |-> t[w].r, m |-> t[w].m]]
    /\ Config /\ UNCHANGED <<now, scope>>

\* the mean: total over the intervals elapsed since the first mark
IsMean(o, x) ==
    IF ~o.started \/ now = o.start THEN x = o.total
    ELSE Near(MulInt(MulInt(x, now - o.start), per), MulInt(o.total, ival), Mul(MulInt(Abs(o.total), ival), Pow2(-44)))

\* logging a duration on a timer
LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Logged(o, dur) ==
    IF dur = 0 THEN o
    ELSE [MarkObj(o, One) EXCEPT !.count = @ + 1, !.items = LastOf(Append(@, dur), cap)]
Sorted(items) == SortSeq(items, LAMBDA a, b : a < b)

Log(h, dur) ==
    /\ obj[h].live /\ kind = "timer"
    /\ obj' = [obj EXCEPT ![h] = Logged(@, dur)]
    /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, scope>>

\* scoped timers: c is the reading of the timer's own clock
Open(s, h, c) ==
    /\ obj[h].live
    /\ scope' = [scope EXCEPT ![s] = [live |-> TRUE, h |-> h, set |-> TRUE, start |-> c]]
    /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, obj>>
ResetScope(s, c) ==
    /\ scope[s].live
    /\ scope' = [scope EXCEPT ![s].set = TRUE, ![s].start = c]
    /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, obj>>
ClearScope(s) ==
    /\ scope[s].live
    /\ scope' = [scope EXCEPT ![s].set = FALSE]
    /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, obj>>
MoveScope(s, u) ==
    /\ scope[s].live /\ ~scope[u].live
    /\ scope' = [scope EXCEPT ![u] = scope[s], ![s].set = FALSE]
    /\ ret' = <<>> /\ Config /\ UNCHANGED <<now, obj>>
CloseScope(s, c) ==
    /\ scope[s].live
    /\ scope' = [scope EXCEPT ![s] = [live |-> FALSE]]
    /\ obj' = IF scope[s].set
              THEN [obj EXCEPT ![scope[s].h] = Logged(@, c - scope[s].start)] ELSE obj
    /\ ret' = <<>> /\ Config /\ UNCHANGED now
\* timing a callable that advances the clocks by dur and returns or throws
TimeCall(h, dur, throws, include) ==
    /\ obj[h].live
    /\ now' = now            \* the rate clock is advanced by its own event
    /\ obj' = IF throws /\ ~include THEN obj ELSE [obj EXCEPT ![h] = Logged(@, dur)]
    /\ ret' = <<>> /\ Config /\ UNCHANGED scope

Do(c) ==
    CASE c.op = "clock" -> Clock(c.t)
      [] c.op = "new"   -> Create(c.h)
      [] c.op \in {"copy", "assign"} -> Copy(c.h, c.g)
      [] c.op = "mark"  -> Mark(c.h, c.amt)
      [] c.op = "read"  -> Read(c.h, {c.w}, c.const)
      [] c.op = "snap"  -> Read(c.h, Windows, c.const)
      [] c.op = "log"   -> Log(c.h, c.dur)
      [] c.op = "open"  -> Open(c.s, c.h, c.c)
      [] c.op = "reset" -> ResetScope(c.s, c.c)
      [] c.op = "clear" -> ClearScope(c.s)
      [] c.op = "moves" -> MoveScope(c.s, c.u)
      [] c.op = "close" -> CloseScope(c.s, c.c)
      [] c.op = "time"  -> TimeCall(c.h, c.dur, c.throws, c.include)
=============================================================================
