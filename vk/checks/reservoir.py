"""P08, P10, P11, P13: reservoirs, ring buffer and histogram, sequentially."""
from concurrent.futures import ThreadPoolExecutor
from ..core import CheckError


def driver(ctx):
    return ctx.build("d_reservoir", ["d_reservoir.cpp", "clock.cpp"], link=("-latomic",), opt="-O0")


def script(beh, kind, elem, rng, scale=1, obs=("snap",), every=True):
    """Turn one generated command sequence into driver lines, observing after each command."""
    cap = beh["cap"] if elem == "i" else rng.choice([3, 5])
    out = ["cfg %s %d %d %s %d" % (kind, cap, beh["win"] * scale, elem, rng.randrange(1, 1 << 60))]
    live = [1]
    vals = rng.choice(["unique", "unique", "dup", "neg"])
    n = 0
    for c in beh["cmds"]:
        op = c["op"]
        if op == "update":
            n += 1
            v = {"unique": n, "dup": n % 3, "neg": (n * 7) % 11 - 5}[vals]
            out.append("update %d %d" % (c["h"], v))
        elif op == "clock":
            t = c["t"] * scale
            if scale > 2:
                t += rng.randrange(-1, 2)
            out.append("clock %d" % t)
        elif op in ("copy", "assign"):
            out.append("%s %d %d" % (op, c["h"], c["g"]))
            if c["g"] not in live:
                live.append(c["g"])
        elif op == "fresh":
            out.append("fresh %d %d" % (c["g"], c["w"] * scale))
            if c["g"] not in live:
                live.append(c["g"])
        elif op in obs:
            out.append("%s %d" % (op, c["h"]))
        if every:
            for h in live:
                for o in obs:
                    out.append("%s %d" % (o, h))
    for h in live:
        for o in obs:
            out.append("%s %d" % (o, h))
    return out


def go(ctx, exe, name, behs, kinds, elems, obs, every=True, scales=(1,)):
    rng = ctx.rng(name)
    sc = [script(b, rng.choice(kinds), rng.choice(elems), rng, rng.choice(scales), obs, every) for b in behs]
    ctx.conform(name, exe, sc, "ReservoirTrace", "ReservoirTrace.cfg")


def bulk(rng, kind, obs, top, elem="i"):
    """Histories of many updates, observed at and right after every power of two."""
    cap = rng.choice([2, 3, 4, 5, 8, 16])
    out = ["cfg %s %d %d %s %d" % (kind, cap, 1000, elem, rng.randrange(1, 1 << 60))]
    n = 0
    o = rng.choice(obs)
    for e in range(4, top + 1):
        t = (1 << e) + rng.randint(-2, 2)
        if t <= n:
            continue
        out.append("bulk 1 %d %d" % (n + 1, t - n))
        n = t
        for _ in range(rng.randint(1, 5)):
            out.append("%s 1" % o)
            n += 1
            out.append("update 1 %d" % n)
        out.append("%s 1" % o)
        if kind != "ring" and rng.random() < .3:
            out += ["copy 1 2", "%s 2" % o, "update 2 7", "%s 2" % o, "%s 1" % o]
    return out


def flood(rng, kind):
    cap = rng.choice([2, 3, 4, 5, 8, 16])
    out = ["cfg %s %d %d %s %d" % (kind, cap, 0, "i", rng.randrange(1, 1 << 60))]
    for i in range(rng.randint(0, 2 * cap)):
        out.append("update 1 %d" % i)
    for _ in range(3):
        d = rng.choice([0, 1])
        out.append("flood 1 %d %d %d" % (rng.randint(1, 10**6), 300 * cap + rng.randint(0, 99), d))
        if d == 0:
            out += ["snap 1", "update 1 5", "snap 1"]
    return out


ASSUME = ["histogram sample contents are read through the public quantile interface at i/(n+1)",
          "capacities 2,3,4,5,8,16; int64, double, int16 and nanosecond elements"]


def many(ctx, exe, kinds):
    rng = ctx.rng("many")
    for k, o in kinds.items():
        sc = [bulk(rng, k, [o], ctx.pick(17, 20)) for _ in range(ctx.pick(60, 300))] + \
             [bulk(rng, k, [o], ctx.pick(23, 26)) for _ in range(2)]
        ctx.conform("%s: very many updates" % k, exe, sc, "ReservoirTrace", "ReservoirTrace.cfg", timeout=400)


class beyond:
    """More updates than 32 bits count, past which nothing may change; runs beside the rest of the check."""
    def __init__(self, ctx, kinds):
        exe = ctx.build("d_reservoir_fast", ["d_reservoir.cpp", "clock.cpp"], link=("-latomic",), opt="-O2")
        rng = ctx.rng("far")
        self.pool = ThreadPoolExecutor(len(kinds))
        self.jobs = []
        for k, o in kinds:
            cap = rng.choice([3, 5])
            n = 0 if "uniform" in k else cap
            out = ["cfg %s %d %d i %d" % (k, cap, 1000, rng.randrange(1, 1 << 60)), "far 1 100 %d %d 400" % (n, (1 << 32) - 2 - cap - n)]
            for i in range(2 * cap + 6):
                out += ["update 1 %d" % (500 + i), "%s 1" % o]
            self.jobs.append(self.pool.submit(ctx.conform, "%s: more updates than 32 bits count" % k, exe, [out],
                                              "ReservoirTrace", "ReservoirTrace.cfg", timeout=800))

    def end(self):
        for j in self.jobs:
            j.result()
        self.pool.shutdown()


def p08(ctx):
    far = beyond(ctx, [("last", "snap")])
    p08_(ctx)
    far.end()


def p08_(ctx):
    exe = driver(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCReservoir", ctx.pick("MCReservoir.cfg", "MCReservoirDeep.cfg"), "reservoir design against full history")
    g = ctx.behaviours("MCReservoir", ctx.pick("GenLast.cfg", "GenLastDeep.cfg"))
    ctx.sample(g[len(g) // 3])
    go(ctx, exe, "last-N: all short sequences", g, ["last"], ["i"], ("snap",))
    go(ctx, exe, "ring buffer: all short sequences", g, ["ring"], ["i"], ("ring",))
    s = ctx.behaviours("MCReservoir", "SimLast.cfg", simulate=ctx.pick(400, 6000), depth=100)
    go(ctx, exe, "last-N: long sequences", s, ["last"], ["i", "i", "d", "n", "s"], ("snap",), every=False)
    go(ctx, exe, "ring buffer: long sequences", s, ["ring"], ["i", "i", "d", "n", "s"], ("ring",), every=False)
    many(ctx, exe, {"last": "snap", "ring": "ring"})


def p10(ctx):
    far = beyond(ctx, [("uniform", "snap")])
    p10_(ctx)
    far.end()


def p10_(ctx):
    exe = driver(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCReservoir", ctx.pick("MCReservoir.cfg", "MCReservoirDeep.cfg"), "reservoir design against full history")
    g = ctx.behaviours("MCReservoir", "GenUniform.cfg")
    go(ctx, exe, "uniform: all short sequences", g, ["uniform"], ["i"], ("snap",))
    s = ctx.behaviours("MCReservoir", "SimUniform.cfg", simulate=ctx.pick(400, 6000), depth=100)
    go(ctx, exe, "uniform: long sequences", s, ["uniform"], ["i", "i", "d", "n", "s"], ("snap",))
    rng = ctx.rng("flood")
    ctx.conform("uniform: every slot gets replaced", exe, [flood(rng, "uniform") for _ in range(ctx.pick(200, 2000))],
                "ReservoirTrace", "ReservoirTrace.cfg")


def p11(ctx):
    exe = driver(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCReservoir", ctx.pick("MCReservoir.cfg", "MCReservoirDeep.cfg"), "reservoir design against full history")
    g = ctx.behaviours("MCReservoir", "GenWindow.cfg")
    go(ctx, exe, "window: all short sequences", g, ["window"], ["i"], ("snap",), scales=(1, 1000, 10**8))
    s = ctx.behaviours("MCReservoir", "SimWindow.cfg", simulate=ctx.pick(600, 6000), depth=70)
    go(ctx, exe, "window: long sequences", s, ["window"], ["i", "i", "d", "n", "s"], ("snap",),
       scales=(1, 2, 1000, 10**8))
    many(ctx, exe, {"window": "snap"})


def p13(ctx):
    far = beyond(ctx, [("hlast", "snap")])
    p13_(ctx)
    far.end()


def p13_(ctx):
    exe = driver(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCReservoir", ctx.pick("MCReservoir.cfg", "MCReservoirDeep.cfg"), "the count is every update, whatever the reservoir")
    for k, gen, sim in (("last", "GenLast.cfg", "SimLast.cfg"), ("uniform", "GenUniform.cfg", "SimUniform.cfg"),
                        ("window", "GenWindow.cfg", "SimWindow.cfg")):
        rng = ctx.rng(k)
        g = ctx.behaviours("MCReservoir", gen)
        g = g if ctx.thorough else rng.sample(g, min(len(g), 4000))
        sc = (1, 1000, 10**8) if k == "window" else (1,)
        go(ctx, exe, "histogram over %s: short histories" % k, g, ["h" + k], ["i"], ("snap",), scales=sc)
        s = ctx.behaviours("MCReservoir", sim, simulate=ctx.pick(200, 3000), depth=70 if k == "window" else 100)
        go(ctx, exe, "histogram over %s: long histories" % k, s, ["h" + k], ["i", "i", "d", "n", "s"], ("snap",), every=False, scales=sc)
    many(ctx, exe, {"hlast": "snap", "hwindow": "snap"})
    from .conc import histograms_par
    histograms_par(ctx)


CHECKS = {"P13": p13, "P08": p08, "P10": p10, "P11": p11}
