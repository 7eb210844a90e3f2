"""P18 and P19: metric_value."""
from fractions import Fraction
from ..num import d, parse, dyadic
from .snapshot import INT as _INT, lit

INTS = {k: v for k, v in _INT.items() if k != "ns"}
INTS["u16"] = (0, 65535)
FLOATS = {"f": (24, 120), "d": (53, 900), "ld": (64, 900)}
DURS = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "m": 60 * 10**9, "h": 3600 * 10**9, "dy": 86400 * 10**9}      # nanoseconds


COUNTED = set(DURS) | {"ps"}            # durations with arithmetic


def score(t):
    return {"d": 1000, "ld": 2000}.get(t, 500)


def width(t):
    return int(t[1:]) * 2 + (1 if t[0] == "u" else 0) if t in INTS else score(t)


def wider(a, b):
    return a if width(a) >= width(b) else b


def allowed(f, a, b):
    num = lambda t: t in INTS or t in ("d", "ld")
    if num(a) and num(b):
        return True
    if f in ("add", "sub"):
        return a in COUNTED and a == b
    if f == "mul":
        return (a in COUNTED and b in INTS) or (a in INTS and b in COUNTED)
    return f == "div" and a in COUNTED and b in INTS


def edges():
    r = []
    for t, (lo, hi) in INTS.items():
        for v in {lo, lo + 1, hi - 1, hi, 0, 1, 2, 7} | ({-1, -7} if lo else set()):
            r.append((t, str(v)))
    for t in ("f", "d", "ld"):
        for v in ("0x0p0", "-0x0p0", "0x1p-1", "-0x5p-1", "0x7p0", "0x1p63", "-0x1p63", "0x1p64", "0x1.fffffep62", "-0x1p120", "0x1p-100", "inf", "-inf"):
            r.append((t, v))
    for t in ("d", "ld"):
        r += [(t, "0x1.fffffffffffffp62"), (t, "0x1fffffffffffffp0"), (t, "-0x1p900"), (t, "0x1.0000000000001p53")]
    r += [("ld", "0xffffffffffffffffp0"), ("ld", "0x8000000000000001p0"), ("ld", "-0x8000000000000001p0"), ("ld", "0x8000000000000001p-63")]
    return r


def wide_durs():
    """Counts whose nanoseconds do not fit 64 bits, and units below the nanosecond."""
    r = []
    for u in list(DURS) + ["ps"]:
        for v in (2**63 - 1, 2**63 - 2, -2**63, 1 - 2**63, 2**62, 10**15, 500, 1500, 999):
            r.append((u, str(v)))
    # the same instant in many units, and its neighbours
    for k in (1, 7, 10**5, 106751, 2 * 10**5, 53 * 10**9):
        for u, n in (("dy", 1), ("h", 24), ("m", 1440), ("s", 86400), ("ms", 86400 * 10**3), ("us", 86400 * 10**6), ("ns", 86400 * 10**9), ("ps", 86400 * 10**12)):
            for e in (-1, 0, 1):
                for s in (1, -1):
                    if abs(s * k * n + e) < 2**63:
                        r.append((u, str(s * k * n + e)))
    r += [("fns", x) for x in ("0x3p-1", "-0x3p-1", "0x5p-1", "0x1p0", "0x3p10", "0x3p-20", "0x0p0", "1000000000", "0x1.8p33")]
    return r


def dur_edges():
    r = []
    for u, k in DURS.items():
        top = (2**63 - 1) // k
        for v in {0, 1, -1, 59, 60, 61, 1000, 999, 3600, 24, top, top - 1, -top}:
            if abs(v) <= top:
                r.append((u, str(v)))
    return r


def cmp_pairs(pool):
    for t, v in pool:
        out = ["cfg", "set 1 %s %s" % (t, v), "cmp 1 1"]
        for t2, v2 in pool:
            out += ["set 2 %s %s" % (t2, v2), "cmp 1 2", "cmp 2 1"]
        yield out


def arith_pairs(pool):
    for t, v in pool:
        if "inf" in v or t == "f":
            continue
        out = ["cfg", "set 1 %s %s" % (t, v)]
        for t2, v2 in pool:
            if "inf" in v2 or t2 == "f":
                continue
            fs = [f for f in ("add", "sub", "mul", "div") if allowed(f, t, t2)]
            if fs:
                out.append("set 2 %s %s" % (t2, v2))
                for f in fs:
                    out.append("bin %s 3 1 2 0" % f)
        if len(out) > 2:
            yield out


def conv_all(pool):
    for t, v in pool:
        if "inf" in v:
            continue
        out = ["cfg", "set 1 %s %s" % (t, v), "conv 1", "copy 2 1", "conv 2", "move 3 2", "conv 3", "assign 2 3", "conv 2", "cmp 1 2"]
        if v not in ("0", "-0x0p0"):
            out += ["neg 4 1", "conv 4"]
        yield out
        if t in ("i64", "u64"):
            yield ["cfg", "set 1 str %s" % v, "conv 1 str", "copy 2 1", "conv 2 str", "move 3 2", "conv 3 str", "assign 1 3", "conv 1 str"]


def rnd_value(rng, t):
    if t in INTS:
        lo, hi = INTS[t]
        v = rng.choice([rng.randint(lo, hi), rng.randint(max(lo, -20), min(hi, 20)), lo, hi, rng.randint(lo, hi) >> rng.randrange(1, 40)])
        return str(v)
    if t in COUNTED:
        top = (2**63 - 1) // DURS.get(t, 1) if rng.random() < .8 else 2**63 - 1
        return str(rng.choice([rng.randint(-50, 50), rng.randint(-top, top), rng.randint(-10**4, 10**4)]))
    bits, emax = FLOATS[t]
    k = rng.randrange(3)
    if k == 0:
        return lit(Fraction(rng.randint(-4000, 4000), 64))
    if k == 1:
        return lit(Fraction(rng.randint(-10**6, 10**6)))
    return lit(Fraction(rng.getrandbits(bits) * rng.choice([-1, 1])) * Fraction(2) ** rng.randint(-60, 60))


def from_skeleton(beh, rng, family):
    """Concrete script: assign types and values to a generated skeleton, dropping what is unspecified."""
    ty = {}
    out = ["cfg"]
    for c in beh["cmds"]:
        op = c["op"]
        if op == "set":
            t = rng.choice(family)
            ty[c["i"]] = t
            out.append("set %d %s %s" % (c["i"], t, rnd_value(rng, t)))
        elif op in ("copy", "move", "assign", "neg"):
            if c["i"] not in ty:
                continue
            out.append("%s %d %d" % (op, c["k"], c["i"]))
            ty[c["k"]] = ty[c["i"]]
            if op == "move":
                del ty[c["i"]]
        elif op == "bin":
            a, b = ty.get(c["i"]), ty.get(c["j"])
            if a is None or b is None or not allowed(c["f"], a, b):
                continue
            out.append("bin %s %d %d %d %d" % (c["f"], c["k"], c["i"], c["j"], 1 if c["inplace"] else 0))
            ty[c["k"]] = wider(a, b)
        elif op == "cmp":
            a, b = ty.get(c["i"]), ty.get(c["j"])
            if a is None or b is None or (a in COUNTED) != (b in COUNTED):
                continue
            out.append("cmp %d %d" % (c["i"], c["j"]))
    for i in ty:
        out.append("conv %d" % i)
    return out


def post(tr):
    for e in tr:
        for k in ("num", "got", "res", "tod", "told", "toi8", "tou8", "toi16", "tou16", "toi32", "tou32", "toi64", "tou64", "tons"):
            if k in e:
                e[k] = d(e[k])
        if "str" in e:
            try:
                f = Fraction(e["str"]) * 10**6
                e["str"] = dyadic(f if f.denominator & (f.denominator - 1) == 0 else Fraction(round(f)))
            except ValueError:
                e["str"] = [3, 0, []]
    return tr


def build(ctx):
    return ctx.build("d_value", ["d_value.cpp", "clock.cpp"], opt="-O0")


def common(ctx):
    ctx.model("MCDyadic", "MCDyadic.cfg", "dyadic arithmetic against TLC integers")
    ctx.model("MCValue", "MCValue.cfg", "order and arithmetic laws on all triples of boundary numbers")


def p18(ctx):
    exe = build(ctx)
    common(ctx)
    ctx.assumptions += ["NaN and strings are outside the property", "durations counted in 64 bits; those counted in doubles only in nanoseconds"]
    e = edges()
    ctx.conform("all pairs of boundary numbers", exe, list(cmp_pairs(e)), "ValueTrace", "ValueTrace.cfg", post=post)
    ctx.conform("all pairs of boundary durations", exe, list(cmp_pairs(dur_edges())), "ValueTrace", "ValueTrace.cfg", post=post)
    rng = ctx.rng("pairs")
    w = sorted(set(wide_durs() + dur_edges()))
    ctx.conform("durations of every magnitude", exe, [c for _ in range(ctx.pick(6, 40)) for c in cmp_pairs(rng.sample(w, 24))],
                "ValueTrace", "ValueTrace.cfg", post=post)
    sc = []
    for _ in range(ctx.pick(60, 1500)):
        pool = []
        for _ in range(12):
            t = rng.choice(list(INTS) + list(FLOATS))
            v = rnd_value(rng, t)
            pool.append((t, v))
            # the same or a neighbouring number in another type
            f = parse(v)
            if f.denominator == 1:
                for t2 in rng.sample(list(INTS), 3):
                    w = f + rng.choice([-1, 0, 1])
                    if INTS[t2][0] <= w <= INTS[t2][1]:
                        pool.append((t2, str(int(w))))
                if abs(f) < 2**64:
                    pool.append(("ld", lit(f + rng.choice([0, 0, Fraction(1, 2)]) if abs(f) < 2**62 else f)))
        sc += list(cmp_pairs(pool[:20]))[:6]
    ctx.conform("random and neighbouring numbers", exe, sc, "ValueTrace", "ValueTrace.cfg", post=post)


def p19(ctx):
    exe = build(ctx)
    common(ctx)
    ctx.assumptions += ["results are read back through the conversion to long double, which holds every 64 bit integer",
                        "arithmetic on strings, floats narrower than double and durations of different units is outside the property",
                        "durations whose nanoseconds exceed 64 bits are not converted"]
    e = edges()
    ctx.conform("all pairs of boundary numbers", exe, list(arith_pairs(e)), "ValueTrace", "ValueTrace.cfg", post=post)
    small = [(t, v) for t, v in dur_edges() if abs(int(v)) <= 4000]
    ctx.conform("durations", exe, list(arith_pairs(small + [("i64", "3"), ("i8", "-7"), ("u16", "60"), ("i32", "0"), ("u64", "2")])),
                "ValueTrace", "ValueTrace.cfg", post=post)
    wide = [x for x in wide_durs() if x[0] != "fns"]
    rng = ctx.rng("wide")
    ctx.conform("durations of every magnitude", exe,
                list(arith_pairs(rng.sample(wide, ctx.pick(40, 90)) + [("i64", "3"), ("i64", "-1"), ("i8", "-1"), ("i8", "-7"), ("u16", "60"), ("u64", "2")])),
                "ValueTrace", "ValueTrace.cfg", post=post)
    ctx.conform("conversions", exe, list(conv_all(e + dur_edges() + wide)), "ValueTrace", "ValueTrace.cfg", post=post)
    g = ctx.behaviours("MCValue", "SimValue.cfg", simulate=ctx.pick(900, 15000), depth=45)
    rng = ctx.rng("skeleton")
    fam = [list(INTS), list(INTS) + ["d", "ld"], ["d", "ld"], list(DURS) + ["ps", "i64", "i32", "u8"], ["i64", "u64"], ["ns", "i64", "s"], ["ps", "dy", "i64"]]
    ctx.conform("generated operation sequences", exe, [from_skeleton(b, rng, rng.choice(fam)) for b in g],
                "ValueTrace", "ValueTrace.cfg", post=post)


CHECKS = {"P18": p18, "P19": p19}
