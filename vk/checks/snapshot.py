"""P12 and P07: statistics, sampling and merging of snapshots."""
from fractions import Fraction
from ..num import d, parse

INT = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1),
       "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "ns": (-2**63, 2**63 - 1)}
TYPES = list(INT) + ["f", "d", "ld"]


def pool(ty, rng):
    """A handful of values of the type, of a randomly chosen flavour."""
    if ty in INT:
        lo, hi = INT[ty]
        k = rng.randrange(5)
        if k == 0:
            return [lo, lo + 1, -1 if lo else 1, 0, hi - 1, hi]
        if k == 1:
            return [max(lo, -3), 0, 1, 2, 3, 5, 8]
        if k == 2:
            return [hi - i for i in range(6)]
        if k == 3:
            return [rng.randint(lo, hi) for _ in range(8)]
        return [rng.randint(lo, hi) >> rng.randrange(0, 60) for _ in range(8)]
    mant = {"f": 24, "d": 53, "ld": 64}[ty]
    emax = {"f": 100, "d": 900, "ld": 900}[ty]
    k = rng.randrange(5)
    if k == 0:
        return [Fraction(x, 64) for x in (-100, -1, 0, 1, 63, 64, 4000)]
    if k == 1:
        e = rng.randint(-emax, emax)
        return [Fraction(rng.randint(-1000, 1000)) * Fraction(2) ** e for _ in range(6)]
    if k == 2:
        return [Fraction(rng.choice([-1, 1]) * rng.getrandbits(mant)) * Fraction(2) ** rng.randint(-40, 40) for _ in range(6)]
    if k == 3:
        return [Fraction(x) for x in (-3, 0, 1, 2, 3, 5, 8)]
    return [Fraction(rng.getrandbits(mant)), Fraction(-7, 8), Fraction(1) / 2 ** 60, Fraction(0), Fraction(2) ** emax]


def lit(v):
    v = Fraction(v)
    if v.denominator == 1 and abs(v) < 2 ** 64:
        return str(v.numerator)
    n, k = v.numerator, v.denominator.bit_length() - 1
    while n and n % 2 == 0:
        n //= 2
        k -= 1
    return "%s0x%xp%d" % ("-" if n < 0 else "", abs(n), -k)


def post(tr):
    for e in tr:
        for k in ("count", "min", "max", "mean", "code", "val"):
            if k in e and not (k == "max" and e["op"] == "sample"):
                e[k] = d(e[k])
        if "samples" in e:
            e["samples"] = [d(x) for x in e["samples"]]
        if "out" in e:
            e["out"] = [[d(x), d(y)] for x, y in e["out"]]
    return tr


def queries(h, rng, n, all_q=False):
    out = ["stats %d" % h]
    for q in (range(30) if all_q else rng.sample(range(30), n)):
        out.append("quant %d %d" % (h, q))
    for m in rng.sample([0, 1, 2, 3, 4, 5, 7, 10, 31, 100], 2):
        out.append("sample %d %d" % (h, m))
    return out


def stat_scripts(ctx, n):
    rng = ctx.rng("stats")
    res = []
    for i in range(n):
        ty = TYPES[i % len(TYPES)]
        p = pool(ty, rng)
        k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 40]) if i >= 60 else i // 12
        vals = [rng.choice(p) for _ in range(k)]
        order = rng.randrange(3)
        if order == 1:
            vals.sort()
        elif order == 2:
            vals.sort(reverse=True)
        res.append(["cfg", "make 1 %s %s %d %s" % (rng.choice(["r", "ri", "hist", "timer"]), ty, rng.choice([k, k + 5, 2**63 + 7]),
                                                    " ".join(lit(v) for v in vals))] + queries(1, rng, 12, i % 7 == 0))
        if rng.random() < .3:
            res[-1] += ["make 2 %s %s 0 %s" % (res[-1][1].split()[2], ty, lit(rng.choice(p))),
                        "move 1 2 %d" % rng.randrange(2)] + queries(2, rng, 3)
    return res


def merge_script(beh, rng):
    ty = rng.choice(TYPES)
    p = sorted(set(pool(ty, rng)))
    a = rng.choice(p)
    b = rng.choice(p)
    kind = rng.choice(["hist", "hist", "timer"])
    out = ["cfg"]
    for c in beh["cmds"]:
        if c["op"] == "make":
            s = [lit(a if x == 0 else b) for x in c["samples"]]
            out.append("make %d %s %s %d %s" % (c["h"], kind, ty, rng.choice([len(s), len(s) + 3, 2**62]), " ".join(s)))
        else:
            out.append("merge %d %d" % (c["h"], c["g"]))
            out += queries(c["h"], rng, 2) + ["stats %d" % c["g"]]
    return out


def big_merge(ctx, n):
    rng = ctx.rng("bigmerge")
    res = []
    for i in range(n):
        ty = rng.choice(TYPES)
        p = pool(ty, rng)
        kind = rng.choice(["hist", "timer"])
        out = ["cfg"]
        for h in range(1, 6):
            k = rng.choice([0, 0, 1, 2, 3, 5, 9])
            out.append("make %d %s %s %d %s" % (h, kind, ty, rng.choice([k, k * 3, 2**33]), " ".join(lit(rng.choice(p)) for _ in range(k))))
        for _ in range(rng.choice([4, 5])):
            a, b = rng.sample(range(1, 6), 2)
            out.append("merge %d %d" % (a, b))
            out += queries(a, rng, 2)
        for h in range(1, 6):
            out += queries(h, rng, 5)
        res.append(out)
    return res


ASSUME = ["long double evaluation may differ from the exact rational by 2^-40 of the largest magnitude",
          "quantile arguments: 30 codes compiled into the driver"]


def build(ctx):
    return ctx.build("d_snapshot", ["d_snapshot.cpp", "clock.cpp"], opt="-O0")


def p12(ctx):
    exe = build(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCDyadic", "MCDyadic.cfg", "dyadic arithmetic against TLC integers")
    ctx.model("MCSnapshot", "MCSnapshot.cfg", "order statistics and merging on all small samples")
    ctx.conform("statistics", exe, stat_scripts(ctx, ctx.pick(1500, 20000)), "SnapshotTrace", "SnapshotTrace.cfg", post=post)


def p07(ctx):
    exe = build(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCSnapshot", "MCSnapshot.cfg", "order statistics and merging on all small samples")
    g = ctx.behaviours("MCSnapshot", "GenSnapshot.cfg")
    rng = ctx.rng("merge")
    g = [b for b in g if any(c["op"] == "merge" for c in b["cmds"])]
    rng.shuffle(g)
    g = g[:ctx.pick(4000, 40000)]
    ctx.conform("generated merge histories", exe, [merge_script(b, rng) for b in g], "SnapshotTrace", "SnapshotTrace.cfg", post=post)
    ctx.conform("long merges", exe, big_merge(ctx, ctx.pick(400, 6000)), "SnapshotTrace", "SnapshotTrace.cfg", post=post)


CHECKS = {"P12": p12, "P07": p07}
