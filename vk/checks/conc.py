"""Many threads: programs run on the real code under the deterministic scheduler of harness/conc."""
import json
from fractions import Fraction
from ..num import d
from . import registry as rg
from .small import RANGE


def values(ctx):
    return ctx.build_conc("c_values", "d_values.cpp")


# ---- P01 --------------------------------------------------------------------------------------------
def counter_programs(ctx, n):
    rng = ctx.rng("conc-counter")
    progs = []
    for _ in range(n):
        ty = rng.choice(["i64", "i32", "u8", "i16", "u64"])
        lo, hi = RANGE[ty]
        nt = rng.choice([2, 2, 3, 3, 4])
        per = {2: 4, 3: 3, 4: 2}[nt]
        edge = [1, 2, 3, 5, hi, hi // 2 + 1] + ([-1, -2, lo + 1] if lo < 0 else [])
        p = ["kind=counter ty=%s" % ty, "S cnew 1 %d %s" % (rng.choice([0, 1, hi, lo, 5]), ty)]
        small = rng.random() < .6
        for t in range(nt):
            for _ in range(rng.randint(1, per)):
                op = rng.choice(["incr", "incr", "addas", "subas", "preinc", "postinc", "predec", "cval", "csnap", "set" if rng.random() < .3 else "incr"])
                a = rng.choice(edge[:3] if small else edge)
                p.append("T %d %s 1 %s" % (t, op, a if op in ("incr", "addas", "subas", "set") else ""))
        p.append("F cval 1")
        p.append("F csnap 1")
        progs.append(p)
    return progs


def cpost(h):
    for e in h:
        for k in ("by", "init", "ret"):
            if k in e:
                e[k] = d(e[k])
    return h


def counters_par(ctx):
    exe = values(ctx)
    ctx.explore("counters under threads", exe, counter_programs(ctx, ctx.pick(60, 400)), "CounterLin", "CounterLin.cfg",
                post=cpost, runs=ctx.pick(1500, 20000), most=ctx.pick(60, 250))


# ---- P09, P13 ----------------------------------------------------------------------------------------
def reservoir_programs(ctx, kinds, n, salt):
    rng = ctx.rng("conc-res-" + salt)
    progs = []
    for i in range(n):
        kind, cap = kinds[i % len(kinds)]
        nt = rng.choice([2, 3, 3, 4])
        p = ["kind=%s cap=%d" % (kind, cap)]
        v = 100
        dup = rng.random() < .2
        small = rng.random() < .2       # values that would do as sizes and places
        def val():
            nonlocal v
            v += 1
            if small:
                return rng.choice([0, 0, 1, 2])
            return 7 if dup and rng.random() < .5 else v
        for _ in range(rng.choice([0, 0, 1, cap - 1, cap, cap + 1, 2 * cap - 1])):
            p.append("S upd %d" % val())
        reader = rng.random() < .5
        for t in range(nt):
            for _ in range(rng.randint(1, 3 if nt < 4 else 2)):
                op = "upd" if not (reader and t == nt - 1) else rng.choice(["snap", "snap", "count" if kind[0] == "h" else "snap"])
                p.append("T %d %s %s" % (t, op, val() if op == "upd" else ""))
        p.append("F snap")
        for _ in range(rng.choice([0, 0, 1, cap])):
            p.append("F upd %d" % val())
        p.append("F snap")
        if kind[0] == "h":
            p.append("F count")
        progs.append(p)
    return progs


LASTS = [("last", 2), ("last", 3), ("last", 4), ("last", 2), ("uniform", 2), ("uniform", 4), ("window", 2), ("window", 4), ("last", 8)]
HISTS = [("hlast", 2), ("huniform", 2), ("hlast", 4), ("hwindow", 4), ("huniform", 4)]


def ring_step_programs(ctx, kinds):
    """What the threads do when a ring buffer with a faulty step goes wrong, according to RingSteps."""
    seen, progs = set(), []
    for cfg in ("GenRingSteps.cfg", "GenRingSteps3.cfg"):
        for g in ctx.behaviours("RingSteps", cfg):
            g.pop("fault")
            key = json.dumps(g, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            for kind in kinds:
                if kind == "hlast" and g["cap"] == 3:
                    continue
                v = g["pre"]
                p = ["kind=%s cap=%d" % (kind, g["cap"])] + ["S upd %d" % (i + 1) for i in range(v)]
                for t, who in enumerate(sorted(g["did"])):
                    for op in g["did"][who]:
                        v += 1
                        p.append("T %d %s" % (t, "upd %d" % v if op == "upd" else "snap"))
                progs.append(p + ["F snap"] + ["F upd %d" % (v + 1), "F snap", "F upd %d" % (v + 2), "F snap"])
    return progs


def reservoirs_par(ctx):
    exe = values(ctx)
    ctx.model("RingSteps", "RingSteps.cfg", "the steps of the ring buffer deliver what ReservoirPar allows, two threads")
    ctx.model("RingSteps", "RingStepsMore.cfg", "the same, three threads")
    if ctx.thorough:
        ctx.model("RingSteps", "RingStepsDeep.cfg", "the same, two threads, three calls each, three places")
    ctx.explore("reservoirs under threads, programs that break a faulty ring buffer", exe, ring_step_programs(ctx, ["last"]),
                "ReservoirParTrace", "ReservoirParTrace.cfg", runs=ctx.pick(500, 6000), most=ctx.pick(40, 400))
    ctx.explore("reservoirs under threads", exe, reservoir_programs(ctx, LASTS, ctx.pick(90, 500), "r"), "ReservoirParTrace",
                "ReservoirParTrace.cfg", runs=ctx.pick(2000, 30000), most=ctx.pick(120, 600))


def histograms_par(ctx):
    exe = values(ctx)
    ctx.explore("histograms under threads", exe, reservoir_programs(ctx, HISTS, ctx.pick(60, 400), "h"), "ReservoirParTrace",
                "ReservoirParTrace.cfg", runs=ctx.pick(1500, 20000), most=ctx.pick(100, 500))


# ---- P24, P25 ------------------------------------------------------------------------------------------
def structs(ctx):
    return ctx.build_conc("c_struct", "d_struct.cpp")


def stack_programs(ctx, n, mem="mem=reuse"):
    rng = ctx.rng("conc-lifo")
    progs = []
    for _ in range(n):
        nt = rng.choice([2, 2, 3, 3, 4])
        p = ["kind=%s %s" % (rng.choice(["lifo", "lifo", "linked"]), mem), "S lnew 1"]
        v = 100
        for _ in range(rng.randint(0, 4)):
            v += 1
            p.append("S emplace 1 %d" % v)
        for t in range(nt):
            slots = [3 * t + 1, 3 * t + 2, 3 * t + 3]
            have = []
            if rng.random() < .3:
                have.append(slots[0])
                p.append("S pop 1 %d" % slots[0])
            for _ in range(rng.randint(1, 5 if nt == 2 else 4 if nt == 3 else 3)):
                op = rng.choice(["emplace", "emplace", "pop", "pop", "pop", "back", "back", "drop", "put"])
                if op in ("back", "drop", "put") and not have:
                    op = "pop"
                if op == "emplace":
                    v += 1
                    p.append("T %d emplace 1 %d" % (t, v))
                elif op == "pop":
                    x = rng.choice(slots)
                    have.append(x)
                    p.append("T %d pop 1 %d" % (t, x))
                else:
                    x = have[-1]
                    if op == "put":
                        v += 1
                        p.append("T %d put %d %d" % (t, x, v))
                    else:
                        have.remove(x)
                        p.append("T %d %s %s%d" % (t, op, "1 " if op == "back" else "", x))
        for k in range(12):
            p.append("F peek %d" % (k + 1))
        p += ["F alive"] + ["F pop 1 12"] * 9 + ["F alive", "F close"]
        progs.append(p)
    return progs


def stack_step_programs(ctx):
    """What the threads do when a stack without tags goes wrong, according to LifoSteps."""
    seen, progs = set(), []
    for g in ctx.behaviours("MCLifoSteps", "GenLifoSteps.cfg"):
        key = json.dumps(g, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        for kind in ("lifo", "linked"):
            p = ["kind=%s mem=reuse" % kind, "S lnew 1"] + ["S emplace 1 %d" % v for v in range(g["size"], 0, -1)]
            v = 100
            for t, who in enumerate(sorted(g["did"])):
                ops = list(g["did"][who])
                # the stalled thread's operation is not there: it had begun, and goes on with what it took
                for op in ops + (["free"] if ops and ops[-1] == "pop" else []):
                    v += 1
                    p.append("T %d %s" % (t, {"push": "emplace 1 %d" % v, "pop": "pop 1 %d" % (3 * t + 1),
                                              "free": "drop %d" % (3 * t + 1), "again": "back 1 %d" % (3 * t + 1)}[op]))
            progs.append(p + ["F peek 1", "F peek 4", "F alive"] + ["F pop 1 12"] * 5 + ["F alive", "F close"])
    return progs


def stacks_par(ctx):
    exe = structs(ctx)
    ctx.model("MCLifoSteps", "MCLifoSteps.cfg", "the steps of a lock-free stack with tags: links, swaps and freed nodes that come back")
    ctx.explore("stacks under threads, programs that break a stack without tags", exe, stack_step_programs(ctx), "LifoLin",
                "LifoLin.cfg", runs=ctx.pick(400, 6000), most=ctx.pick(60, 400))
    ctx.explore("stacks under threads", exe, stack_programs(ctx, ctx.pick(120, 800)), "LifoLin", "LifoLin.cfg",
                runs=ctx.pick(2000, 30000), most=ctx.pick(80, 400))
    stacks_freed(ctx)


def stacks_freed(ctx):
    """pop() may read the link of a node that another thread has popped and freed: a known finding, for this
    program only."""
    exe = structs(ctx)
    for kind in ("lifo", "linked"):
        p = ["cfg prog=0 runs=400 max=50 seed=%d kind=%s" % (ctx.seed, kind), "S lnew 1", "S emplace 1 1", "S emplace 1 2",
             "T 0 pop 1 1", "T 0 drop 1", "T 1 pop 1 4", "T 1 drop 4", "F close"]
        _, n, fault = ctx._conc_run(exe, [p], 120)
        if fault is None:
            continue
        what = ctx.listed("pop-reads-freed")
        if fault["fault"] == "use of freed memory" and what:
            if what not in ctx.known:
                ctx.known.append(what)
        else:
            ctx.violation("stacks under threads, freed nodes: " + fault["fault"], {"program": p, "fault": fault})


def pool_programs(ctx, n):
    rng = ctx.rng("conc-pool")
    progs = []
    for _ in range(n):
        nt = rng.choice([2, 2, 3, 3])
        p = ["kind=pool" + rng.choice(["", " mem=reuse"])]
        v = 100
        shared = rng.choice(["none", "copied", "swapped"])
        nfree = rng.randint(0, 3)
        for k in range(nfree):
            v += 1
            p.append("S alloc %d %d" % (k + 1, v))
        if shared != "none":
            v += 1
            p.append("S alloc 12 %d" % v)
        for k in range(nfree):
            p.append("S null %d" % (k + 1))
        for t in range(nt):
            hs = [3 * t + 1, 3 * t + 2, 3 * t + 3]
            if rng.random() < .3:
                v += 1
                p.append("S alloc %d %d" % (hs[0], v))
            for _ in range(rng.randint(2, 5 if nt == 2 else 4)):
                op = rng.choice(["alloc"] * 5 + ["null"] * 4 + ["assign", "massign", "xchg", "cas", "get", "put", "copied", "swapped"])
                a, b, c = rng.choice(hs), rng.choice(hs), rng.choice(hs)
                if op in ("copied", "swapped"):
                    if op != shared:
                        op = "alloc"
                    else:
                        p.append("T %d %s" % (t, "assign 12 %d" % a if op == "copied" else "xchg 12 %d %d" % (a, b)))
                        continue
                v += 1
                p.append("T %d %s %d %s" % (t, op, a, {"alloc": v, "put": v, "assign": b, "massign": b}.get(op, "%d %d" % (b, c) if op in ("xchg", "cas") else "")))
        for k in range(12):
            p.append("F get %d" % (k + 1))
        p.append("F alive")
        for k in range(4):
            v += 1
            p.append("F alloc %d %d" % (3 * k + 1, v))
        for k in range(12):
            p.append("F get %d" % (k + 1))
        p += ["F alive", "F close"]
        progs.append(p)
    return progs


def pool_step_programs(ctx, most):
    """What the threads do when a pool with a faulty step goes wrong, according to PoolSteps."""
    seen, progs = set(), []
    rng = ctx.rng("conc-pool-steps")
    found = {}
    for g in ctx.behaviours("PoolSteps", "GenPoolSteps.cfg"):
        found.setdefault(g["pre"].pop("fault"), set()).add(json.dumps(g, sort_keys=True))
    for fault in sorted(found):
        new = sorted(found[fault] - seen)
        seen.update(new)
        for g in map(json.loads, rng.sample(new, min(most, len(new)))):
            p, v = ["kind=pool" + rng.choice(["", " mem=reuse"])], 100
            for k in range(g["pre"]["free"]):
                p.append("S alloc %d %d" % (k + 1, v + k))
            if g["pre"]["shared"]:
                p.append("S alloc 12 99")
            p += ["S null %d" % (k + 1) for k in range(g["pre"]["free"])]
            for t, who in enumerate(sorted(g["did"])):
                for op, s in g["did"][who]:
                    v += 1
                    h = 3 * t + s
                    p.append("T %d %s" % (t, {"alloc": "alloc %d %d" % (h, v), "drop": "null %d" % h, "share": "assign 12 %d" % h,
                                              "copy": "assign %d %d" % (3 * t + 3 - s, h)}[op]))
                p += ["T %d get %d" % (t, 3 * t + s) for s in (1, 2)]
            p += ["F get %d" % k for k in (1, 2, 4, 5, 12)] + ["F alive"]
            p += ["F alloc %d %d" % (6 + k, v + k) for k in range(1, 5)] + ["F get %d" % k for k in (1, 2, 4, 5, 7, 8, 9, 10, 12)]
            progs.append(p + ["F alive", "F close"])
    return progs


def pools_par(ctx):
    exe = structs(ctx)
    ctx.model("PoolSteps", "PoolSteps.cfg", "the steps of the pool: counts, free list, objects; two threads")
    ctx.model("PoolSteps", "PoolStepsMore.cfg", "the same, three threads")
    if ctx.thorough:
        ctx.model("PoolSteps", "PoolStepsDeep.cfg", "the same, three threads, more calls", timeout=1500)
    ctx.explore("pools under threads, programs that break a faulty pool", exe, pool_step_programs(ctx, ctx.pick(30, 400)), "PoolLin",
                "PoolLin.cfg", runs=ctx.pick(400, 5000), most=ctx.pick(30, 200))
    ctx.explore("pools under threads", exe, pool_programs(ctx, ctx.pick(120, 800)), "PoolLin", "PoolLin.cfg",
                runs=ctx.pick(2000, 30000), most=ctx.pick(80, 400))


# ---- P15 ---------------------------------------------------------------------------------------------
SEC = 10**6
RKINDS = {("ewma", 1): [10 * SEC], ("ewma", 2): [60 * SEC], ("ewma", 3): [300 * SEC],
          ("meter", 1): [60 * SEC], ("meter", 2): [10 * SEC, 60 * SEC, 300 * SEC],
          ("timer", 1): [60 * SEC], ("timer", 2): [60 * SEC, 300 * SEC]}


def rate_programs(ctx, n):
    rng = ctx.rng("conc-rates")
    progs = []
    keys = [("ewma", 1), ("meter", 1), ("timer", 1), ("meter", 2), ("ewma", 1), ("ewma", 2), ("timer", 2), ("ewma", 3)]
    for i in range(n):
        kind, cap = keys[i % len(keys)]
        p = ["kind=%s cap=%d" % (kind, cap), "S new"]
        mark = lambda: ("log %d" % rng.randint(1, 500)) if kind == "timer" else "mark %d" % rng.choice([1, 1, 2, 3, 7, 100, rng.randint(1, 9)])
        t = 0
        if kind != "ewma" or cap == 1:
            for _ in range(rng.choice([0, 0, 1, 2])):
                for _ in range(rng.randint(0, 2)):
                    p.append("S " + mark())
                t += rng.choice([1000, 1500, 2000, 5000])
                p.append("S clock %d" % t)
                # close the interval before the threads start
                p.append("S " + ("snap 0" if kind != "ewma" else "read 0"))
        if rng.random() < .5:
            p.append("S " + mark())
        if rng.random() < .5:
            t += rng.choice([1, 500, 999])
            p.append("S clock %d" % t)
        nt = rng.choice([2, 2, 3])
        total = 0
        for th in range(nt):
            for _ in range(rng.randint(1, 3 if nt == 2 else 2)):
                r = rng.random()
                if kind == "ewma" and r < .2:
                    p.append("T %d read %d" % (th, rng.randrange(2)))
                elif kind == "ewma" and rng.random() < .15:
                    p.append("T %d mark %d" % (th, -rng.randint(1, 5)))
                else:
                    p.append("T %d %s" % (th, mark()))
        rd = "snap 1" if kind != "ewma" else "read 1"
        p += ["F " + rd]
        # an unclosed remainder of the interval, then the next ones
        t += rng.choice([1000, 1000, 1999, 2500, 7000])
        p += ["F clock %d" % t, "F " + rd, "F " + rd.replace("1", "0")]
        if kind != "ewma" or cap == 1:
            p.append("F " + rd)
        progs.append(p)
    return progs


def rpost(h):
    c = h[0]
    wins = RKINDS[(c["kind"], c["cap"])]
    c["ratio"] = [[Fraction(SEC, 2 * w).numerator, Fraction(SEC, 2 * w).denominator] for w in wins]
    c.update(ival=1000, per=1, slack=36, cap=16, windows=wins)
    for e in h:
        for k in ("amt", "val", "mean"):
            if k in e:
                e[k] = d(e[k])
        if "rates" in e:
            e["rates"] = [d(x) for x in e["rates"]]
    return h


def rates_par(ctx):
    exe = values(ctx)
    ctx.explore("averages, meters and timers under threads", exe, rate_programs(ctx, ctx.pick(64, 400)), "RatesLin", "RatesLin.cfg",
                post=rpost, runs=ctx.pick(1500, 20000), most=ctx.pick(40, 150))
    ctx.assumptions.append("threads run as sequentially consistent interleavings; the clock stands still while they run")


CHECKS = {"P09": reservoirs_par, "P15": rates_par}


# ---- P02-P05, P21: registries -------------------------------------------------------------------------
CTYPES = ["c64", "c32", "e1", "gi", "gs", "hl", "m1", "m1b", "t2"]
CPATHS = [["a"], ["b"], ["a", "b"], ["ab"]]
CTAGS = [[], [("sk", "a")], [("sk", "b")], [("sk", "a"), ("ik", "1")]]


class RegPrograms:
    def __init__(self, ctx, salt, weights):
        self.rng, self.w = ctx.rng("conc-reg-" + salt), weights

    def slot(self):
        return self.rng.choice(self.paths), list(self.rng.choice(self.tags))

    def op(self, h):
        g = self.rng
        k = g.choices(list(self.w), list(self.w.values()))[0]
        p, t = self.slot()
        g.shuffle(t)
        ty = g.choice(self.types)
        if k == "get":
            self.handles.append(h)
            return "get %d 1 %s %s %s %d %d" % (h, rg.pw(p), rg.tw(t), ty, g.randint(0, 5), g.randrange(42))
        if k == "reg":
            return "reg 1 %s %s %d %d" % (rg.pw(p), rg.tw(t), g.choice(self.made + self.made + [0]), g.randrange(42))
        if k == "upd":
            c = [x for x in self.handles if x == h - 1] + self.made
            return "upd %d %d" % (g.choice(c or [0]), g.randint(1, 9))
        if k == "look":
            return "look 1 %s %s" % (g.choice(["all", "all", "one"]), rg.pw(p))
        if k == "agg":
            return "agg 1 %s" % rg.pw(p)
        if k == "vthrow":
            return "vthrow 1 %s" % g.choice(["path", "tag"])
        if k == "data":
            return "data 1 %d %s" % (g.randint(1, 2), g.choice(["x", "y", "default", "bad"]))
        if k == "datafor":
            return "datafor 1 %d %s %s %d" % (g.randint(1, 2), g.choice(["x", "y", "z", "bad"]), rg.pw(p), g.randrange(2))
        if k == "has":
            return "has 1 %d %s %d" % (g.randint(1, 2), rg.pw(p), g.randrange(2))
        return "hasm 1 %s" % rg.pw(p)

    def one(self):
        g = self.rng
        self.paths = g.sample(CPATHS, g.choice([1, 1, 2]))
        self.tags = g.sample(CTAGS, g.choice([1, 2, 2, 3]))
        self.types = g.sample(CTYPES, 1 if g.random() < .6 else 2)
        if "m1" in self.types and g.random() < .5:
            self.types.append("m1b")
        self.made, self.handles = [], []
        p = ["kind=registry"]
        for h in (1, 2):
            if self.w.get("reg") and g.random() < .9:
                self.made.append(h)
                p.append("S make %d %s %d" % (h, g.choice(self.types), h))
        h = 10
        for _ in range(g.choice([0, 0, 1, 2])):
            keep = self.w
            self.w = {"get": 3, "reg": 1 if self.made else 0, "data": 1 if "data" in keep else 0}
            p.append("S " + self.op(h))
            self.w = keep
            h += 10
        fill = g.random()
        if fill < .15:   # many tag sets or paths already there: the next ones make the tables grow
            n = g.choice([12, 13])
            for i in range(n):
                p.append("S get %d 1 %s %s %s 0 0" % (1000 + i, rg.pw(self.paths[0] if g.random() < .9 else ["f%d" % i]),
                                                     rg.tw([("ik", str(i + 10))]), self.types[0]))
        elif fill < .25:
            for i in range(g.choice([12, 13])):
                p.append("S get %d 1 %s - %s 0 0" % (1000 + i, rg.pw(["f%d" % i]), self.types[0]))
        nt = g.choice([2, 2, 3, 3, 4])
        for t in range(nt):
            h = 100 * (t + 1)
            self.handles = []
            for _ in range(g.randint(1, {2: 3, 3: 2, 4: 2}[nt])):
                p.append("T %d %s" % (t, self.op(h)))
                h += 1
        if "data" in self.w or "datafor" in self.w:
            for q in self.paths:
                p += ["F has 1 %d %s 0" % (k, rg.pw(q)) for k in (1, 2)]
                p += ["F datafor 1 %d late %s 0" % (k, rg.pw(q)) for k in (1, 2)]
            p += ["F data 1 %d late" % k for k in (1, 2)]
        for q in self.paths:
            for t in self.tags:
                p.append("F get 9000 1 %s %s %s 7 1" % (rg.pw(q), rg.tw(t), self.types[0]))
        p.append("F visit 1")
        return p


def registry_post(progs):
    """What a visit reported, piece by piece, for every path and tag set of the program."""
    universe = []
    for p in progs:
        ps, ts = {}, {}
        for l in p[1:]:
            w = l.split()[1:] if l[0] in "SF" else l.split()[2:]
            if w[0] == "get":
                slot = (w[3], w[4])
            elif w[0] == "reg":
                slot = (w[2], w[3])
            else:
                continue
            ps.setdefault(slot[0], set()).add(frozenset(slot[1].split(",")) if slot[1] != "-" else frozenset())
        universe.append(ps)

    def fix(h):
        out = []
        for e in h:
            if e["op"] == "cfg":
                e["srcs"] = 0
            out.append(e)
            if e["op"] != "look":
                continue
            known = universe[h[0]["prog"]]
            got = {"/".join(f["p"]): f for f in e["out"]}
            at = {"r": e["r"], "s": e["s"], "e": e["e"]}
            want = list(known) if e["all"] else ["/".join(e["p"])]
            for p in sorted(set(want) | set(got)):
                f = got.get(p)
                out.append(dict(at, op="famp", p=p.split("/"), has=f is not None, type=f["type"] if f else ""))
                rep = {frozenset("=".join(kv) for kv in t): t for t in f["tags"]} if f else {}
                for t in sorted(set(known.get(p, ())) | set(rep), key=sorted):
                    out.append(dict(at, op="slot", p=p.split("/"), t=[x.split("=") for x in sorted(t)], has=t in rep))
        return rg.post(out)
    return fix


def registries(ctx, salt, weights, count):
    exe = ctx.build_conc("c_registry", "d_registry.cpp")
    g = RegPrograms(ctx, salt, weights)
    progs = [g.one() for _ in range(count)]
    ctx.explore("registries under threads", exe, progs, "RegistryLin", "RegistryLin.cfg", post=registry_post(progs),
                runs=ctx.pick(600, 10000), most=ctx.pick(30, 150))
    ctx.assumptions.append("threads run as sequentially consistent interleavings of every shared memory access")
