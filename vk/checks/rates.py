"""P14, P16, P17: moving averages, meters and timers."""
from fractions import Fraction
from ..num import d
from .snapshot import lit

MS, S, MIN = 1000, 10**6, 60 * 10**6
#  variant: kind, interval (us), windows (us, ascending), capacity of the timer's reservoir, clock units (ns)
VAR = {
    "E1": ("ewma", 1 * MS, [10 * MS], 0, [1, 1000, 10**6]),
    "E2": ("ewma", 1 * S, [1 * MIN], 0, [1000, 10**6, 10**9]),
    "E3": ("ewma", 5 * S, [15 * MIN], 0, [10**6, 10**9]),
    "E4": ("ewma", 5 * S, [1 * S], 0, [10**6, 10**9]),
    "E5": ("ewma", 1 * S, [5 * S], 0, [1000, 10**6]),
    "E6": ("ewma", 1, [100 * MS], 0, [1000, 10**5, 10**6]),
    "M1": ("meter", 1 * S, [1 * MIN, 5 * MIN, 15 * MIN], 0, [1000, 10**6, 10**9]),
    "M2": ("meter", 1 * MS, [5 * MS, 10 * MS], 0, [1, 1000]),
    "M3": ("meter", 5 * S, [1 * S, 1 * MIN], 0, [10**6, 10**9]),
    "M4": ("meter", 1 * S, [10 * S], 0, [1000, 10**6]),
    "T1": ("timer", 1 * S, [5 * S, 1 * MIN], 4, [10**6, 10**9]),
    "T2": ("timer", 1 * MS, [10 * MS], 1024, [1, 1000]),
    "T3": ("timer", 5 * S, [1 * S, 1 * MIN], 3, [10**6]),
}
LIMIT = 2 * 10**9


def cfg(variant, unit, base, c0=1000):
    return "cfg %s %d %d %d" % (variant, unit, base, c0)


def post(tr):
    c = tr[0]
    kind, ival, wins, cap, _ = VAR[c["variant"]]
    unit = c["unit"]
    ratios = []
    for w in wins:
        f = Fraction(ival, 2 * w)
        ratios.append([f.numerator, f.denominator])
    # the smoothing factor is a double: its rounding error grows with the number of intervals it is applied to
    c.update(slack=24 if ival == 1 else 36)
    c.update(kind=kind, ival=max(1, ival * 1000 // unit), per=max(1, unit // (ival * 1000)), ratio=ratios, cap=cap, windows=wins)
    for e in tr:
        for k in ("amt", "val", "mean"):
            if k in e:
                e[k] = d(e[k])
        if "rates" in e:
            e["rates"] = [d(x) for x in e["rates"]]
    return tr


class Clk:
    """Concrete clock advances for abstract ones; keeps within 31 bits."""
    def __init__(self, rng, ns, unit):
        # an interval is i units of the clock, or a unit is per intervals
        self.rng, self.i, self.t, self.per = rng, max(1, ns // unit), 0, max(1, unit // ns)

    def adv(self, k):
        i, r = self.i, self.rng
        if self.per > 1:
            # idle for so many intervals that their number passes 31 and 32 bits
            huge = [2**31 // self.per + r.randint(-1, 2), 2**31 // self.per + r.randint(2, 1000),
                    2**32 // self.per + r.randint(-1, 2), 2**32 // self.per + r.randint(0, 1000),
                    r.choice([2**31, 2**32, 3 * 2**31]) // self.per + r.randint(0, 2 * 10**6 // self.per)]
            s = {1: 0, 2: 1}.get(k, r.choice([2, 10, r.randint(2, 100), r.randint(2, 3 * 10**6 // self.per + 2)] + huge))
        elif k == 1:
            s = r.choice([1, i // 2, i - 1, 0])
        elif k == 2:
            s = r.choice([i, i, i + 1, i + i // 2, 2 * i - 1])
        else:
            s = r.choice([2 * i, 2 * i + 1, 3 * i - 1, 3 * i, 10 * i, 61 * i + 3, r.randint(2, 1000) * i, r.randint(2, 40) * i - 1])
        if self.t + s < LIMIT:
            self.t += s
        else:
            self.t += min(1, LIMIT + 10**8 - self.t)
        return self.t

    def back(self):
        return max(0, self.t - self.rng.choice([1, self.i // 2, self.i, 3 * self.i]))


def amount(rng, ints):
    k = rng.randrange(6)
    if k == 0:
        return "1"
    if k == 1:
        return str(rng.randint(0, 10))
    if k == 2:
        return str(rng.randint(0, 10**6))
    if k == 3 and not ints:
        return lit(Fraction(rng.randint(1, 10**5), 64)) + " d"
    if k == 4:
        return str(rng.randint(-1000, 1000))
    return str(rng.randint(0, 2**40))


def marks_script(beh, variant, rng):
    kind, ival, wins, cap, units = VAR[variant]
    unit = rng.choice(units)
    clk = Clk(rng, ival * 1000, unit)
    out = [cfg(variant, unit, rng.choice([10**9, 12345, 3 * 10**17])), "new 1"]
    flavour = rng.choice(["any", "const", "ones"])
    fixed = amount(rng, kind != "ewma")
    live = [1]
    for c in beh["cmds"]:
        op = c["op"]
        if op == "adv":
            out.append("clock %d" % clk.adv(c["d"]))
            if kind == "ewma" and rng.random() < .08:
                # a clock reading before the last update: marks and reads there change nothing
                b = clk.back()
                out.append("clock %d" % b)
                out.append("mark 1 %s" % amount(rng, False) if rng.random() < .5 else "read 1 1 %d" % rng.randrange(2))
                out.append("clock %d" % clk.t)
        elif op == "mark":
            a = {"any": amount(rng, kind != "ewma"), "const": fixed, "ones": "1"}[flavour]
            if c["amt"] == 0:
                a = "0" if rng.random() < .3 else amount(rng, kind != "ewma")
            out.append("mark %d %s" % (c["h"], a))
        elif op == "read":
            w = rng.randint(1, len(wins))
            out.append("read %d %d %d" % (c["h"], w, 1 if c["const"] else 0))
        elif op == "snap":
            out.append("snap %d %d" % (c["h"], 1 if c["const"] else 0))
        elif op in ("copy", "assign"):
            out.append("%s %d %d" % (op, c["h"], c["g"]))
            if c["g"] not in live:
                live.append(c["g"])
    for h in live:
        out += ["snap %d 1" % h]
    clk.adv(2)
    out.append("clock %d" % clk.t)
    for h in live:
        out += ["snap %d 1" % h, "snap %d 0" % h]
    return out


def timer_script(rng, n):
    variant = rng.choice(["T1", "T2", "T3"])
    kind, ival, wins, cap, units = VAR[variant]
    unit = rng.choice(units)
    clk = Clk(rng, ival * 1000, unit)
    c = 1000
    out = [cfg(variant, unit, rng.choice([10**9, 3 * 10**17])), "new 1"]
    live = [1]
    scopes = {}
    logged = 0
    limit = 14 if variant == "T2" else 10**6

    back = rng.random() < .3       # a clock that is sometimes set back
    def dur():
        x = rng.choice([0, 0, 1, 2, 7, 1000, rng.randint(1, 10**6)])
        return -x if back and rng.random() < .4 else x
    for _ in range(n):
        k = rng.randrange(12)
        h = rng.choice(live)
        if logged >= limit and k < 9:
            k = 10
        if k == 0:
            out.append("clock %d" % clk.adv(rng.choice([1, 2, 5])))
        elif k == 1:
            out.append("log %d %d" % (h, dur()))
            logged += 1
        elif k in (2, 3) and len(scopes) < 3:
            s = [x for x in (1, 2, 3) if x not in scopes][0]
            c += dur()
            scopes[s] = h
            out.append("open %d %d %d" % (h, s, c))
            logged += 1
        elif k == 4 and scopes:
            c += dur()
            out.append("reset %d %d" % (rng.choice(list(scopes)), c))
        elif k == 5 and scopes:
            out.append("clear %d" % rng.choice(list(scopes)))
        elif k == 6 and scopes and len(scopes) < 3:
            s = rng.choice(list(scopes))
            u = [x for x in (1, 2, 3) if x not in scopes][0]
            scopes[u] = scopes[s]
            out.append("moves %d %d" % (s, u))
        elif k in (7, 8) and scopes:
            s = rng.choice(list(scopes))
            c += dur()
            out.append("close %d %d %d" % (s, c, rng.randrange(2)))
            del scopes[s]
        elif k == 9:
            dd = dur()
            out.append("time %d %d %d %d %d %d" % (h, dd, rng.randrange(2), rng.randrange(2), rng.randrange(2), clk.adv(rng.choice([1, 1, 2]))))
            c += dd
            logged += 1
        elif k == 10:
            out.append("snap %d %d" % (h, rng.randrange(2)))
        elif k == 11 and len(live) < 2 and not scopes and logged < limit:
            out.append("copy 1 2")
            live = [1, 2]
        elif k == 11:
            out.append("read %d %d 1" % (h, rng.randint(1, len(wins))))
    for s in list(scopes):
        c += dur()
        out.append("close %d %d %d" % (s, c, rng.randrange(2)))
    for h in live:
        out += ["snap %d 1" % h]
    out.append("clock %d" % clk.adv(2))
    for h in live:
        out += ["snap %d 1" % h, "snap %d 0" % h]
    return out


def build(ctx):
    return ctx.build("d_rates", ["d_rates.cpp", "clock.cpp"], link=("-latomic",), opt="-O0")


def run(ctx, part, exe, scripts):
    ctx.conform(part, exe, scripts, "RatesTrace", "RatesTrace.cfg", post=post)


ASSUME = ["rates may differ from the exact law by 2^-36 (intervals of 1 us, idle for millions of them: 2^-24) of the same law applied to absolute amounts",
          "double averages; virtual clock at the resolutions listed in vk/checks/rates.py"]


def p14(ctx):
    exe = build(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCRates", "MCRates.cfg", "range, purity and idle laws of the averages")
    rng = ctx.rng("short")
    g = ctx.behaviours("MCRates", ctx.pick("GenRatesQuick.cfg", "GenRates.cfg"))
    g = [b for b in g if any(c["op"] == "mark" for c in b["cmds"])]
    run(ctx, "all short histories", exe, [marks_script(b, rng.choice(["E1", "E2", "E3", "E4", "E5", "E6"]), rng) for b in g])
    s = ctx.behaviours("MCRates", "SimRates.cfg", simulate=ctx.pick(300, 8000), depth=45)
    run(ctx, "long histories", exe, [marks_script(b, rng.choice(["E1", "E2", "E3", "E4", "E5", "E6"]), rng) for b in s])


def p16(ctx):
    exe = build(ctx)
    ctx.assumptions += ASSUME
    ctx.model("MCRates", "MCRates.cfg", "range, purity and idle laws of the averages")
    rng = ctx.rng("meters")
    s = ctx.behaviours("MCRates", "SimRates.cfg", simulate=ctx.pick(400, 8000), depth=45)
    run(ctx, "meter histories", exe, [marks_script(b, rng.choice(["M1", "M2", "M3", "M4"]), rng) for b in s])


def p17(ctx):
    exe = build(ctx)
    ctx.assumptions += ASSUME
    rng = ctx.rng("timers")
    ctx.model("MCTimer", "MCTimer.cfg", "every scope logs at most once, exactly once unless cleared")
    g = ctx.behaviours("MCTimer", ctx.pick("GenTimer.cfg", "GenTimerDeep.cfg"))
    run(ctx, "all short scope histories", exe, [scope_script(b, rng) for b in g])
    run(ctx, "long timer histories", exe, [timer_script(rng, ctx.pick(40, 80)) for _ in range(ctx.pick(500, 8000))])


def scope_script(beh, rng):
    variant = rng.choice(["T1", "T2", "T3"])
    kind, ival, wins, cap, units = VAR[variant]
    unit = rng.choice(units)
    clk = Clk(rng, ival * 1000, unit)
    c = 1000
    sign = rng.choice([(1,), (1,), (1, -1), (-1,)])      # the last ones: clocks that are set back
    out = [cfg(variant, unit, 10**9), "new 1"]
    for k in beh["cmds"]:
        op = k["op"]
        if op == "wait":
            c += k["d"] * rng.choice([1, 13, 1000]) * rng.choice(sign)
        elif op == "open":
            out.append("open 1 %d %d" % (k["s"], c))
        elif op == "reset":
            out.append("reset %d %d" % (k["s"], c))
        elif op == "clear":
            out.append("clear %d" % k["s"])
        elif op == "moves":
            out.append("moves %d %d" % (k["s"], k["u"]))
        elif op == "close":
            out.append("close %d %d %d" % (k["s"], c, rng.randrange(2)))
        out.append("snap 1 1") if op in ("close", "clear", "moves") else None
    for s in (1, 2):
        if s in beh["open"]:
            c += 3
            out.append("close %d %d %d" % (s, c, rng.randrange(2)))
    out.append("snap 1 1")
    return out


CHECKS = {"P14": p14, "P16": p16, "P17": p17}
