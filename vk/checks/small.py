"""P01 (sequential part), P27, P28: counters, paths, gauges."""
from ..num import d

RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
         "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


def hx(s):
    return s.encode("latin-1").hex() if s else "-"


def build(ctx):
    return ctx.build("d_small", ["d_small.cpp", "clock.cpp"], link=("-latomic",), opt="-O0")


# ---- counters --------------------------------------------------------------------------------------
def cpost(tr):
    for e in tr:
        for k in ("by", "init", "ret"):
            if k in e:
                e[k] = d(e[k])
    return tr


def undy(x):
    from ..num import undy as u
    return int(u(x))


def cscript(beh, rng):
    """A generated history: counter 1 first, then the commands; every value read back after each."""
    lo, hi = RANGE[beh["ty"]]
    out = ["cfg", "cnew 1 %s %s" % (beh["ty"], rng.choice(["none", "0"]))]
    live = [1]
    for c in beh["cmds"]:
        op = c["op"]
        if op in ("incr", "set", "subas", "addas"):
            a = undy(c["by"])
            if lo < 0 and a and rng.random() < .5:
                a = -a
            out.append("%s %d %d" % (op, c["h"], a))
        elif op in ("ccopy", "cmove", "cassign", "cmassign"):
            out.append("%s %d %d" % (op, c["h"], c["g"]))
            if c["g"] not in live:
                live.append(c["g"])
        elif op != "cval":
            out.append("%s %d" % (op, c["h"]))
        for h in live:
            out.append("%s %d" % (rng.choice(["cval", "csnap", "cval"]), h))
    return out


def clong(rng, n):
    ty = rng.choice(sorted(RANGE))
    lo, hi = RANGE[ty]
    edge = [0, 1, 2, hi, hi - 1, hi // 2 + 1, lo + 1, lo + 2, 7] + ([-1, -2, -7] if lo < 0 else [])
    amt = lambda: max(lo + 1, min(hi, rng.choice(edge) if rng.random() < .5 else rng.randint(lo + 1, hi)))
    out = ["cfg", "cnew 1 %s %d" % (ty, rng.choice([amt(), lo, hi]))]
    live = [1]
    for _ in range(n):
        op = rng.choice(["incr"] * 4 + ["addas", "subas", "preinc", "postinc", "predec", "set", "ccopy", "cmove", "cassign", "cmassign"])
        h = rng.choice(live)
        if op in ("incr", "addas", "subas", "set"):
            out.append("%s %d %d" % (op, h, amt()))
        elif op in ("ccopy", "cmove"):
            g = rng.choice([x for x in (1, 2, 3, 4) if x != h])
            out.append("%s %d %d" % (op, h, g))
            if g not in live:
                live.append(g)
        elif op in ("cassign", "cmassign"):
            g = rng.choice(live)
            if not (op == "cmassign" and g == h):
                out.append("%s %d %d" % (op, h, g))
        else:
            out.append("%s %d" % (op, h))
        for x in live if rng.random() < .3 else [h]:
            out.append("%s %d" % (rng.choice(["cval", "csnap"]), x))
    return out


def counters(ctx, exe):
    ctx.model("MCCounter", "MCCounter.cfg", "counter laws: exact modulo the width")
    g = ctx.behaviours("MCCounter", ctx.pick("GenCounter.cfg", "GenCounterDeep.cfg"))
    rng = ctx.rng("counter")
    ctx.conform("counters: all short histories", exe, [cscript(b, rng) for b in g], "CounterTrace", "CounterTrace.cfg", post=cpost)
    ctx.conform("counters: long histories", exe, [clong(rng, 60) for _ in range(ctx.pick(300, 5000))], "CounterTrace",
                "CounterTrace.cfg", post=cpost)
    from .conc import counters_par
    counters_par(ctx)


# ---- gauges ------------------------------------------------------------------------------------------
def gpost(tr):
    for e in tr:
        for k in ("v", "ret"):
            if k in e:
                e[k] = d(e[k])
    return tr


VALS = {"d": ["1", "-2.5", "0", "1e300", "0.1", "123456789.125", "-0.0625"], "i": ["0", "1", "-1", "9007199254740993", "-77", "123456"],
        "s": ["0", "12", "-3", "400"]}


def gval(t, rng, n=None):
    v = rng.choice(VALS[t])
    if t == "d":
        return float(v).hex()
    return v


def gdone(lines, live, rng, srcs):
    for g in live:
        lines.append("%s %d" % (rng.choice(["gget", "gget", "gsnap"]), g))


def gscript(beh, rng):
    t = rng.choice("ddis")
    agg = rng.choice(["avg", "sum"])
    kind = beh["k0"]
    out = ["cfg", "gsrc 1 %s" % gval(t, rng), "gsrc 2 %s" % gval(t, rng),
           "gnew 1 %s %s %s %s" % (kind, t, agg, gval(t, rng) if kind == "plain" else "1")]
    live = {1}
    for c in beh["cmds"]:
        op = c["op"]
        if op == "gset":
            out.append("gset %d %s" % (c["g"], gval(t, rng)))
        elif op == "gsrc":
            out.append("gsrc %d %s" % (c["s"], gval(t, rng)))
        elif op == "gnew":
            out.append("gnew %d %s %s %s %s %d" % (c["g"], kind, t, agg, rng.choice([gval(t, rng)] + (["none"] if t != "s" else [])) if kind == "plain" else c["src"], rng.randrange(2)))
            live.add(c["g"])
        else:
            out.append("%s %d %d" % (op, c["g"], c["h"]))
            live.add(c["h"])
            if op in ("gmove", "gmassign") and kind in ("plain", "fn"):
                live.discard(c["g"])
        gdone(out, sorted(live), rng, 2)
    return out


def glong(rng, n):
    t = rng.choice("ddis")
    agg = rng.choice(["avg", "sum"])
    kind = rng.choice(["plain", "fn", "ptr", "ref"])
    mk = lambda g: "gnew %d %s %s %s %s %d" % (g, kind, t, agg, gval(t, rng) if kind == "plain" else rng.randint(1, 3), rng.randrange(2))
    out = ["cfg"] + ["gsrc %d %s" % (s, gval(t, rng)) for s in (1, 2, 3)] + [mk(1)]
    made, live = {1}, {1}
    for _ in range(n):
        op = rng.choice(["gset", "gset", "gsrc", "gsrc", "gnew", "gcopy", "gmove", "gassign", "gassign", "gmassign"])
        if op == "gnew" or not live:
            g = rng.randint(1, 4)
            out.append(mk(g))
            made.add(g)
            live.add(g)
        elif op == "gset":
            if kind != "plain":
                continue
            out.append("gset %d %s" % (rng.choice(sorted(live)), gval(t, rng)))
        elif op == "gsrc":
            out.append("gsrc %d %s" % (rng.randint(1, 3), gval(t, rng)))
        else:
            g = rng.choice(sorted(live))
            h = rng.choice(sorted(made) if op in ("gassign", "gmassign") else [x for x in (1, 2, 3, 4) if x != g])
            if op == "gmassign" and g == h:
                continue
            out.append("%s %d %d" % (op, g, h))
            made.add(h)
            live.add(h)
            if op in ("gmove", "gmassign") and kind in ("plain", "fn"):
                live.discard(g)
        gdone(out, sorted(live), rng, 3)
    return out


def p28(ctx):
    exe = build(ctx)
    ctx.assumptions += ["gauges of double, int64 and text; what a moved-from plain or function gauge reports is not specified"]
    ctx.model("MCGauge", "MCGauge.cfg", "gauge laws: independence and sharing")
    g = ctx.behaviours("MCGauge", ctx.pick("GenGauge.cfg", "GenGaugeDeep.cfg"))
    rng = ctx.rng("gauge")
    ctx.conform("gauges: all short histories", exe, [gscript(b, rng) for b in g], "GaugeTrace", "GaugeTrace.cfg", post=gpost)
    ctx.conform("gauges: long histories", exe, [glong(rng, 50) for _ in range(ctx.pick(400, 5000))], "GaugeTrace",
                "GaugeTrace.cfg", post=gpost)


# ---- paths ---------------------------------------------------------------------------------------------
NULS = ["a\0b", "a\0c", "a", "a\0", "\0", "\0a", ""]
NAMES = ["", "a", "b", "ab", "a/b", "/", "x y", "\n", "a", "", "\xe9", "b\0c", "A", "longer name to leave the small buffer"]


def pall(out, slots, rng):
    for p in slots:
        out.append("plist %d" % p)
        out.append("pstr %d %s" % (p, hx(rng.choice(["/", ".", "", "::", "a"]))))
    for p in slots:
        for q in slots:
            out.append("peq %d %d" % (p, q))


def pscript(beh, rng):
    out = ["cfg", "plit 1 - %d" % rng.randrange(9), "plit 2 - %d" % rng.randrange(9)]
    for c in beh["cmds"]:
        if c["op"] == "plit":
            out.append("plit %d %s %d" % (c["p"], hx("".join(map(chr, c["t"]))), rng.randrange(9)))
        elif c["op"] == "pjoin":
            out.append("pjoin %d %d %d" % (c["p"], c["q"], c["r"]))
        else:
            out.append("ptext %d %s %d %d %d" % (c["p"], hx("".join(map(chr, c["t"]))), c["side"], rng.randrange(4), c["r"]))
    pall(out, (1, 2), rng)
    return out


def plong(rng, n):
    out = ["cfg"] + ["plit %d %s %d" % (i, hx(rng.choice(NAMES)), rng.randrange(9)) for i in range(1, 7)]
    size = {i: 1 for i in range(1, 7)}
    names = rng.sample(NAMES, 4) + ["a", ""] if rng.random() < .7 else NULS
    for _ in range(n):
        o = rng.random()
        if o < .3:
            i = rng.randint(1, 6)
            size[i] = 1
            out.append("plit %d %s %d" % (i, hx(rng.choice(names)), rng.randrange(9)))
        elif o < .6:
            p, q, r = (rng.randint(1, 6) for _ in range(3))
            if size[p] + size[q] > 12:
                continue
            size[r] = size[p] + size[q]
            out.append("pjoin %d %d %d" % (p, q, r))
        else:
            p, r = rng.randint(1, 6), rng.randint(1, 6)
            if size[p] > 12:
                continue
            size[r] = size[p] + 1
            out.append("ptext %d %s %d %d %d" % (p, hx(rng.choice(names + ["a", "ab", "x y"])), rng.randrange(2), rng.randrange(4), r))
        if rng.random() < .3:
            pall(out, rng.sample(range(1, 7), 2), rng)
    pall(out, range(1, 7), rng)
    return out


def p27(ctx):
    exe = build(ctx)
    ctx.assumptions += ["equal paths must hash alike; unequal ones need not hash differently"]
    ctx.model("MCPath", "MCPath.cfg", "path laws: monoid without empty names")
    g = ctx.behaviours("MCPath", ctx.pick("GenPath.cfg", "GenPathDeep.cfg"))
    rng = ctx.rng("path")
    ctx.conform("paths: all short compositions", exe, [pscript(b, rng) for b in g], "PathTrace", "PathTrace.cfg")
    ctx.conform("paths: long compositions", exe, [plong(rng, 40) for _ in range(ctx.pick(300, 5000))], "PathTrace", "PathTrace.cfg")


def p01(ctx):
    counters(ctx, build(ctx))


CHECKS = {"P01": p01, "P27": p27, "P28": p28}
