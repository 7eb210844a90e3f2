"""Exact numbers between the drivers (hex floats, integers) and Dyadic.tla."""
from fractions import Fraction

BASE = 8192


def parse(s):
    """Number printed by a driver: decimal integer or %La hex float."""
    if isinstance(s, int):
        return Fraction(s)
    t = s.strip().lower()
    if "nan" in t:
        return "nan"
    if "inf" in t:
        return "-inf" if t[0] == "-" else "inf"
    neg = t[0] == "-"
    t = t.lstrip("+-")
    if not t.startswith("0x"):
        f = Fraction(t)
    else:
        m, _, e = t[2:].partition("p")
        a, _, b = m.partition(".")
        f = Fraction(int((a + b) or "0", 16)) * (Fraction(2) ** (int(e or "0") - 4 * len(b)))
    return -f if neg else f


def dyadic(f):
    """Fraction with power of two denominator -> [s, e, limbs]."""
    if f == "nan":
        return [3, 0, []]
    if f == "inf":
        return [2, 0, []]
    if f == "-inf":
        return [-2, 0, []]
    f = Fraction(f)
    if f == 0:
        return [0, 0, []]
    s = 1 if f > 0 else -1
    f = abs(f)
    k = f.denominator.bit_length() - 1
    assert f.denominator == 1 << k
    e = -((k + 12) // 13)
    n = f.numerator << (-e * 13 - k)
    limbs = []
    while n:
        limbs.append(n % BASE)
        n //= BASE
    while limbs[0] == 0:
        limbs.pop(0)
        e += 1
    return [s, e, limbs]


def d(s):
    return dyadic(parse(s))


def undy(x):
    return x[0] * sum(Fraction(l) * Fraction(BASE) ** (x[1] + i) for i, l in enumerate(x[2]))


def approx(f, bits=90):
    """dyadic nearest to an arbitrary fraction"""
    return dyadic(Fraction(round(f * (1 << bits)), 1 << bits))
