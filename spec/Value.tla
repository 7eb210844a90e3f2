------------------------------- MODULE Value -------------------------------
(***************************************************************************)
(* metric_value: a variant of integers, floating point numbers, strings    *)
(* and durations with comparison, arithmetic and conversion (P18, P19).    *)
(* A slot holds [ty, num]: the C++ type and the exact number (the count of *)
(* units for durations).                                                   *)
(***************************************************************************)
EXTENDS Dyadic, TLC

CONSTANT Slots
VARIABLES slot, ret
vars == <<slot, ret>>

Signed   == {"i8", "i16", "i32", "i64"}
Unsigned == {"u8", "u16", "u32", "u64"}
Ints     == Signed \cup Unsigned
Floats   == {"f", "d", "ld"}
IntDurs  == {"ps", "ns", "us", "ms", "s", "m", "h", "dy"}
FltDurs  == {"fns"}          \* a double number of nanoseconds: compared only
Durs     == IntDurs \cup FltDurs
Numeric  == Ints \cup Floats

Bits == [i8 |-> 8, u8 |-> 8, i16 |-> 16, u16 |-> 16, i32 |-> 32, u32 |-> 32, i64 |-> 64, u64 |-> 64]
Mantissa == [f |-> 24, d |-> 53, ld |-> 64]
One == FromInt(1)
Million == FromInt(1000000)
Minute == Mul(FromInt(60000), Million)
NanosPer == [ns |-> One, us |-> FromInt(1000), ms |-> Million, s |-> FromInt(1000000000),
             m |-> Minute, h |-> MulInt(Minute, 60), dy |-> MulInt(Minute, 1440)]
PicosPer(ty) == CASE ty = "ps" -> One [] ty = "fns" -> FromInt(1000) [] OTHER -> MulInt(NanosPer[ty], 1000)

MinVal(ty) == IF ty \in Unsigned THEN Zero ELSE Neg(Pow2(Bits[ty] - 1))
MaxVal(ty) == Sub(Pow2(IF ty \in Unsigned THEN Bits[ty] ELSE Bits[ty] - 1), One)

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
RECURSIVE TwoAdic(_)
TwoAdic(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TwoAdic(n \div 2)
\* significant bits of a number
SigBits(x) == IF x[1] = 0 THEN 0
              ELSE 13 * (Len(x[3]) - 1) + BitLen(x[3][Len(x[3])]) - TwoAdic(x[3][1])

\* inside the normal range of a floating point type
Exponent == [f |-> 126, d |-> 1022, ld |-> 16382]
InRange(x, ty) == x[1] = 0 \/ (Lt(Abs(x), Pow2(Exponent[ty])) /\ Le(Pow2(0 - Exponent[ty]), Abs(x)))

Representable(x, ty) ==
    CASE ty \in Ints   -> IsInteger(x) /\ Le(MinVal(ty), x) /\ Le(x, MaxVal(ty))
      [] ty \in Floats -> SigBits(x) <= Mantissa[ty] /\ InRange(x, ty)
      [] ty \in IntDurs -> IsInteger(x) /\ Le(MinVal("i64"), x) /\ Le(x, MaxVal("i64"))
      [] ty \in FltDurs -> SigBits(x) <= Mantissa["d"] /\ InRange(x, "d")
\* conversions go through 64 bits of nanoseconds
HasNanos(x) == x.ty \in DOMAIN NanosPer /\ LET n == Mul(x.num, NanosPer[x.ty]) IN
               Le(MinVal("i64"), n) /\ Le(n, MaxVal("i64"))

\* arithmetic is specified for integers with double and long double, and for durations of one
\* unit or a duration and an integer
Score(ty) == CASE ty \in Ints -> Bits[ty] * 2 + (IF ty \in Unsigned THEN 1 ELSE 0)
               [] ty = "d" -> 1000
               [] ty = "ld" -> 2000
               [] ty \in Durs -> 500
Wider(s, t) == IF Score(s) >= Score(t) THEN s ELSE t
Arithmetic(op, s, t) ==
    \/ s \in (Numeric \ {"f"}) /\ t \in (Numeric \ {"f"})
    \/ op \in {"add", "sub"} /\ s \in IntDurs /\ t = s
    \/ op = "mul" /\ ((s \in IntDurs /\ t \in Ints) \/ (s \in Ints /\ t \in IntDurs))
    \/ op = "div" /\ s \in IntDurs /\ t \in Ints

Exact(op, a, b) == CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "mul" -> Mul(a, b)

\* q is the quotient of a and b truncated towards zero
Truncated(a, b, q) ==
    LET r == Sub(a, Mul(q, b)) IN
    IsInteger(q) /\ Lt(Abs(r), Abs(b)) /\ r[1] \in {0, a[1]}
RealQuotient(ty, a, b, q) ==
    (a = Zero \/ (/\ Le(Mul(Abs(b), Pow2(2 - Exponent[ty])), Abs(a))
                 /\ Lt(Abs(a), Mul(Abs(b), Pow2(Exponent[ty] - 2)))))
      => Near(Mul(q, b), a, Mul(Abs(a), Pow2(-50)))

IsResult(op, x, y, r) ==
    LET ty == Wider(x.ty, y.ty) IN
    IF op = "div"
    THEN IF y.num = Zero THEN r = Zero
         ELSE IF ty \in Floats THEN RealQuotient(ty, x.num, y.num, r)
         ELSE (Representable(x.num, ty) /\ Representable(y.num, IF ty \in Durs THEN "i64" ELSE ty)
               /\ ~(x.num = MinVal(IF ty \in Durs THEN "i64" ELSE ty) /\ y.num = Neg(One)))
              => Truncated(x.num, y.num, r)
    ELSE LET e == Exact(op, x.num, y.num) IN
         IF ty \in Durs /\ ~(Representable(x.num, IF x.ty \in Durs THEN x.ty ELSE "i64")
                              /\ Representable(y.num, IF y.ty \in Durs THEN y.ty ELSE "i64"))
         THEN TRUE                  \* an operand beyond 64 bits
         ELSE IF Representable(e, ty) THEN r = e
         ELSE (ty \in Floats /\ InRange(e, ty)) => Near(r, e, Mul(Abs(e), Pow2(-45)))

-----------------------------------------------------------------------------
Init == slot = [i \in Slots |-> [ty |-> "none", num |-> Zero]] /\ ret = <<>>

Set(i, ty, num) == slot' = [slot EXCEPT ![i] = [ty |-> ty, num |-> num]] /\ ret' = <<>>
Copy(k, i) == slot' = [slot EXCEPT ![k] = slot[i]] /\ ret' = <<>>
\* res is the value observed in the result
Bin(op, k, i, j, res) ==
    /\ Arithmetic(op, slot[i].ty, slot[j].ty)
    /\ IsResult(op, slot[i], slot[j], res)
    /\ slot' = [slot EXCEPT ![k] = [ty |-> Wider(slot[i].ty, slot[j].ty), num |-> res]]
    /\ ret' = <<>>
Negate(k, i, res) ==
    /\ slot[i].ty # "none"
    /\ Representable(Neg(slot[i].num), slot[i].ty) => res = Neg(slot[i].num)
    /\ slot' = [slot EXCEPT ![k] = [ty |-> slot[i].ty, num |-> res]]
    /\ ret' = <<>>

\* the common yardstick of a comparison: numbers as they are, durations in picoseconds
Measure(x) == IF x.ty \in Durs THEN Mul(x.num, PicosPer(x.ty)) ELSE x.num
Comparable(x, y) == (x.ty \in Numeric /\ y.ty \in Numeric) \/ (x.ty \in Durs /\ y.ty \in Durs)
Compare(i, j) ==
    /\ Comparable(slot[i], slot[j])
    /\ ret' = <<Cmp(Measure(slot[i]), Measure(slot[j]))>>
    /\ UNCHANGED slot
Convert(i) == slot[i].ty # "none" /\ ret' = <<slot[i].num>> /\ UNCHANGED slot
=============================================================================
