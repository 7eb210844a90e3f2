------------------------------- MODULE Counter -------------------------------
(***************************************************************************)
(* Counters of any integer width (P01), one call at a time.  The threaded  *)
(* histories of CounterHist reuse these transitions as linearization       *)
(* points.  Numbers are exact; a counter wraps at its own width only.      *)
(***************************************************************************)
EXTENDS Dyadic, TLC

CONSTANT Counters
VARIABLES ctr,      \* ctr[h] = [ty, v] or [ty |-> "none"]
          cret
cvars == <<ctr, cret>>

W(b, s) == [bits |-> b, signed |-> s]
Widths == [i8 |-> W(8, TRUE), u8 |-> W(8, FALSE), i16 |-> W(16, TRUE), u16 |-> W(16, FALSE),
           i32 |-> W(32, TRUE), u32 |-> W(32, FALSE), i64 |-> W(64, TRUE), u64 |-> W(64, FALSE)]
Top2(w) == Pow2(IF w.signed THEN w.bits - 1 ELSE w.bits)      \* one above the largest value
Bottom(w) == IF w.signed THEN Neg(Top2(w)) ELSE Zero
\* the value of x in a counter of width w; x is off by at most one turn
Wrap(x, w) == IF Le(Top2(w), x) THEN Sub(x, Pow2(w.bits))
              ELSE IF Lt(x, Bottom(w)) THEN Add(x, Pow2(w.bits)) ELSE x
In(x, w) == Le(Bottom(w), x) /\ Lt(x, Top2(w))

CInit == ctr = [h \in Counters |-> [ty |-> "none"]] /\ cret = Zero
Live(h) == ctr[h].ty # "none"
Put(h, v) == ctr' = [ctr EXCEPT ![h].v = v]
Plus(h, x) == Wrap(Add(ctr[h].v, x), Widths[ctr[h].ty])
One == FromInt(1)

New(h, ty, v) == ctr' = [ctr EXCEPT ![h] = [ty |-> ty, v |-> v]] /\ cret' = Zero
Incr(h, by) == Live(h) /\ Put(h, Plus(h, by)) /\ cret' = Plus(h, by)
PostIncr(h) == Live(h) /\ Put(h, Plus(h, One)) /\ cret' = ctr[h].v
Set(h, v) == Live(h) /\ Put(h, v) /\ cret' = v
Read(h) == Live(h) /\ cret' = ctr[h].v /\ UNCHANGED ctr
\* g becomes a copy of h (which keeps its value); g takes h's value over (which is left at zero)
Copy(h, g) == Live(h) /\ h # g /\ ctr' = [ctr EXCEPT ![g] = ctr[h]] /\ cret' = Zero
Move(h, g) == Live(h) /\ h # g /\ ctr' = [ctr EXCEPT ![g] = ctr[h], ![h].v = Zero] /\ cret' = Zero
SelfAssign(h, g) == Live(h) /\ h = g /\ cret' = Zero /\ UNCHANGED ctr

Do(c) ==
    CASE c.op = "cnew" -> New(c.h, c.ty, c.init)
      [] c.op \in {"incr", "addas"} -> Incr(c.h, c.by)
      [] c.op = "subas" -> Incr(c.h, Neg(c.by))
      [] c.op = "preinc" -> Incr(c.h, One)
      [] c.op = "predec" -> Incr(c.h, Neg(One))
      [] c.op = "postinc" -> PostIncr(c.h)
      [] c.op = "set" -> Set(c.h, c.by)
      [] c.op \in {"cval", "csnap"} -> Read(c.h)
      [] c.op \in {"ccopy", "cassign"} -> Copy(c.h, c.g) \/ SelfAssign(c.h, c.g)
      [] c.op \in {"cmove", "cmassign"} -> Move(c.h, c.g)

InRange == \A h \in Counters : Live(h) => In(ctr[h].v, Widths[ctr[h].ty])
=============================================================================
