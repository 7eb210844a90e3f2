----------------------------- MODULE Prometheus -----------------------------
(***************************************************************************)
(* What one publication of a registry writes (P22, P23).                   *)
(*                                                                         *)
(* Histories are those of Registry, with time that may pass.  Once it has, *)
(* Registry no longer knows what averages report; the publication is then  *)
(* held against a reading of the metrics at the same moment.               *)
(***************************************************************************)
EXTENDS Registry, PromText

VARIABLE moved     \* has time passed since the beginning?

Sn == INSTANCE Snapshot WITH Handles <- {}, box <- reg, ret <- ret

MicrosPer == 1000
\* the windows of the meters and timers, in nanoseconds
Us(n) == MulInt(FromInt(n), 1000)
Sec(n) == MulInt(Us(n), 1000000)
Windows(type) ==
    CASE type \in {"m1", "m3", "t3"} -> {Sec(60), Sec(300)}
      [] type \in {"m2", "t1", "t2"} -> {Sec(60)}
      [] type = "m4" -> {Us(7), Us(2500), Us(1500000), Sec(45), Sec(90), Sec(5400), Sec(129600)}
      [] type = "m5" -> {Us(1000), Sec(60), Sec(3600), Sec(7200)}
      [] type = "t4" -> {Sec(90), Sec(3600), Us(10000)}
\* the codes of a string written in hex
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexVal == [x \in {Hex[i] \o Hex[j] : i, j \in 1..16} |->
              LET hi == CHOOSE i \in 1..16 : Hex[i] = SubSeq(x, 1, 1)
                  lo == CHOOSE i \in 1..16 : Hex[i] = SubSeq(x, 2, 2) IN (hi - 1) * 16 + lo - 1]
Codes(h) == IF h = "-" THEN <<>> ELSE [i \in 1..(Len(h) \div 2) |-> HexVal[SubSeq(h, 2 * i - 1, 2 * i)]]
CodesOf(p) == [i \in DOMAIN p |-> Codes(p[i])]

\* the text of a tag's value: keys beginning with d carry floating point numbers, which are
\* written with six decimals
SixDecimals(s) ==
    LET e == Skip(s, IF CharAt(s, 1) = Minus THEN 2 ELSE 1, Digit)
        given == IF CharAt(s, e) = Dot THEN Len(s) - e ELSE 0
    IN  (IF CharAt(s, e) = Dot THEN s ELSE Append(s, Dot)) \o [i \in 1..(6 - given) |-> 48]
TagText(k, v) == IF CharAt(k, 1) = 100 THEN SixDecimals(v) ELSE v
LabelsOf(t) == {<<LabelName(Codes(x[1])), TagText(Codes(x[1]), Codes(x[2]))>> : x \in t}

KindWord(k) == CASE k = "cum" -> <<117, 110, 116, 121, 112, 101, 100>>
                 [] k \in {"avg", "meter"} -> <<103, 97, 117, 103, 101>>
                 [] OTHER -> <<115, 117, 109, 109, 97, 114, 121>>
CountS == <<95, 99, 111, 117, 110, 116>>
MeanS == <<95, 109, 101, 97, 110>>
RatesS == <<58, 114, 97, 116, 101, 115>>
QuantileL == <<113, 117, 97, 110, 116, 105, 108, 101>>
WindowL == <<119, 105, 110, 100, 111, 119>>
MeanW == <<109, 101, 97, 110>>
Units == [hr |-> <<104, 114>>, min |-> <<109, 105, 110>>, sec |-> <<115, 101, 99>>,
          msec |-> <<109, 115, 101, 99>>, usec |-> <<117, 115, 101, 99>>, nsec |-> <<110, 115, 101, 99>>]
UnitNs(u) == CASE u = "hr" -> Mul(FromInt(3600000), FromInt(1000000)) [] u = "min" -> Mul(FromInt(60000), FromInt(1000000))
               [] u = "sec" -> FromInt(1000000000) [] u = "msec" -> FromInt(1000000) [] u = "usec" -> FromInt(1000)
               [] u = "nsec" -> FromInt(1)

\* what a quantile or window label says: hundred thousandths, nanoseconds
NoValue == <<"none">>
QuantileOf(s) == LET n == Number(s) IN
    IF ~n.ok \/ n.decimals > 5 THEN NoValue ELSE <<"q", Mul(n.digits, Pow10(5 - n.decimals))>>
WindowOf(s) ==
    IF s = MeanW THEN <<"mean">>
    ELSE LET e == Skip(s, 1, Digit)
             u == {x \in DOMAIN Units : Units[x] = From(s, e)}
         IN  IF e = 1 \/ u = {} THEN NoValue
             ELSE <<"w", Mul(Number(SubSeq(s, 1, e - 1)).digits, UnitNs(CHOOSE x \in u : TRUE))>>

-----------------------------------------------------------------------------
(* The samples called for by one tag set: a suffix, the tag labels, an extra  *)
(* label, and a value n/den (exact up to rounding relative to mag, and within *)
(* unit).                                                                     *)
One == FromInt(1)
V(suffix, extra, n, den, mag, unit) == [suffix |-> suffix, extra |-> extra, n |-> n, den |-> den, mag |-> mag, unit |-> unit]
Exactly(suffix, extra, v) == V(suffix, extra, v, One, Abs(v), Zero)
\* quantiles are held in 32 bits, so the one reported is within 2^-31 of the one asked for
Quantiles(items, q, per, exact) ==
    LET unit == IF items = <<>> THEN exact
                ELSE Add(exact, Mul(MulInt(Sn!MaxAbs(items), Len(items) + 1), Pow2(-30))) IN
    {V(<<>>, <<"q", FromInt(x)>>,
       IF items = <<>> THEN Zero ELSE Sn!QuantileTimes(items, FromInt(x), FromInt(100000)),
       IF items = <<>> THEN One ELSE MulInt(FromInt(100000), per),
       IF items = <<>> THEN Zero ELSE Sn!MaxAbs(items), unit) : x \in q}
Mean(items, per, unit) ==
    V(MeanS, NoValue, SumSeq(items), IF items = <<>> THEN One ELSE FromInt(per * Len(items)),
      IF items = <<>> THEN Zero ELSE Sn!MaxAbs(items), unit)
Rates(suffix, s, v, mean) ==
    {Exactly(suffix, <<"w", s.windows[i]>>, s.rates[i]) : i \in DOMAIN s.windows}
        \cup (IF mean THEN {Exactly(suffix, <<"mean">>, v)} ELSE {})
Count(s, wanted) == IF wanted THEN {Exactly(CountS, NoValue, FromInt(s.cnt))} ELSE {}

\* s: a reading of the metric, o: the options that apply
Wanted(s, o) ==
    CASE s.k \in {"cum", "avg"} -> {Exactly(<<>>, NoValue, s.v)}
      [] s.k = "meter" -> Rates(<<>>, s, s.v, o.meter.mean)
      [] s.k = "hist" -> Count(s, o.hist.cnt) \cup {Mean(s.items, 1, Zero)} \cup Quantiles(s.items, o.hist.q, 1, Zero)
      [] s.k = "timer" -> Count(s, o.timer.cnt) \cup {Mean(s.items, MicrosPer, One)}
                             \cup Quantiles(s.items, o.timer.q, MicrosPer, One)
                             \cup (IF o.timer.rates THEN Rates(RatesS, s, s.mean, o.timer.mean) ELSE {})
PartOf(k) == CASE k \in {"cum", "avg"} -> "value" [] OTHER -> k

\* does the written number say n/den times the factor?  Six decimals are written.
Says(x, w, factor) ==
    LET scale == MulInt(Pow10(x.decimals), 2000000)                 \* in half millionths
        den == Mul(w.den, FromInt(2000000))
        err == Abs(Sub(Mul(x.digits, den), Mul(Mul(w.n, factor), scale)))
        slack == Add(Mul(w.den, Pow10(x.decimals)),                  \* half a millionth
                     Mul(Mul(w.den, scale),
                         Mul(Abs(factor), Add(w.unit, Mul(w.mag, Pow2(-40))))))
    IN  Le(err, slack)

\* a parsed sample of family name: which of the wanted ones is it?
Extra(labels) ==
    {IF l[1] = QuantileL THEN QuantileOf(l[2]) ELSE WindowOf(l[2]) : l \in {x \in labels : x[1] \in {QuantileL, WindowL}}}
Plain(labels) == {x \in labels : x[1] \notin {QuantileL, WindowL}}
Key(x, name, kind) ==
    LET special == kind \in {"meter", "hist", "timer"}
        ex == IF special THEN Extra(x.labels) ELSE {}
    IN  [suffix |-> From(x.name, Len(name) + 1),
         labels |-> IF special THEN Plain(x.labels) ELSE x.labels,
         extra |-> IF Cardinality(ex) = 1 THEN CHOOSE e \in ex : TRUE ELSE IF ex = {} THEN NoValue ELSE <<"both">>]

-----------------------------------------------------------------------------
(* fam: a parsed family; e: what is registered at its path,                  *)
(* [type, opts, tags: tag set -> reading]                                    *)
KindOf(e) == TypeTable[e.type].agg
LabelText(fam, e) ==      \* every tag set is there with all its text, and no other
    /\ \A i \in DOMAIN fam.samples : Key(fam.samples[i], fam.name, KindOf(e)).labels \in {LabelsOf(t) : t \in DOMAIN e.tags}
    /\ \A t \in DOMAIN e.tags : \E i \in DOMAIN fam.samples : Key(fam.samples[i], fam.name, KindOf(e)).labels = LabelsOf(t)
Values(fam, e, factor) ==
    LET kind == KindOf(e)
        want == UNION {{[labels |-> LabelsOf(t), w |-> w] : w \in Wanted(e.tags[t], e.opts)} : t \in DOMAIN e.tags}
        Right(x, w) == /\ Key(x, fam.name, kind) = [suffix |-> w.w.suffix, labels |-> w.labels, extra |-> w.w.extra]
                       /\ Says(x.value, w.w, factor[e.opts[PartOf(kind)].sc])
    IN  /\ fam.types = <<KindWord(kind)>>
        /\ Len(fam.samples) = Cardinality({<<w.labels, w.w.suffix, w.w.extra>> : w \in want})
        /\ \A w \in want : \E i \in DOMAIN fam.samples : Right(fam.samples[i], w)

\* the families are those of the registered paths, the root excepted
Named(entries) == {p \in DOMAIN entries : p # <<>>}
FamiliesAre(fams, entries) ==
    {fams[i].name : i \in DOMAIN fams} = {MetricName(CodesOf(p)) : p \in Named(entries)}
        /\ Len(fams) = Cardinality(Named(entries))
FamilyAt(fams, p) == fams[CHOOSE i \in DOMAIN fams : fams[i].name = MetricName(CodesOf(p))]

TextIsRight(lines, entries) ==
    LET r == Families(lines) IN
    /\ WellFormed(lines)
    /\ FamiliesAre(r.fams, entries)
    /\ \A p \in Named(entries) : LabelText(FamilyAt(r.fams, p), entries[p])
ValuesAreRight(lines, entries, factor) ==
    LET r == Families(lines) IN
    /\ r.ok
    /\ FamiliesAre(r.fams, entries)
    /\ \A p \in Named(entries) : Values(FamilyAt(r.fams, p), entries[p], factor)

Publish(r) == Visit(r, DOMAIN reg[r].paths) /\ UNCHANGED moved
Advance(ns) == moved' = (moved \/ ns # Zero) /\ ret' = [res |-> "ok"] /\ UNCHANGED <<reg, inst, src, ndata>>
PDo(c) == CASE c.op = "publish" -> Publish(c.r)
            [] c.op = "adv" -> Advance(c.ns)
            [] OTHER -> Do(c) /\ UNCHANGED moved
=============================================================================
