"""P02-P06, P20, P21: registries, visits, aggregation, publish options, publisher data."""
from fractions import Fraction
from ..num import d
from .snapshot import lit
from .value import DURS

SOURCE = ("gf", "gfs", "gp", "gps", "gr", "grs")
KINDS = {"counter": ["c64", "c32"], "gauge": ["g", "gi", "gs", "gis"], "source": list(SOURCE),
         "ewma": ["e1", "e2", "e3"], "hist": ["hu", "hl", "hw"], "meter": ["m1", "m1b", "m2", "m3"],
         "timer": ["t1", "t2", "t3"]}
ALL = [t for k in KINDS.values() for t in k]
SAMPLED = KINDS["hist"] + KINDS["timer"]
MAXITEMS = 16    # the trace lists at most this many samples


def hx(s):
    return s.encode("latin-1").hex() if s else "-"


def pw(comps):
    return "/".join(hx(c) for c in comps)


def tw(tags):
    return ",".join("%s=%s" % (hx(k), hx(v)) for k, v in tags) if tags else "-"


# ---- traces: numbers become exact dyadics ------------------------------------------------------------
def snap(s):
    for k in ("v", "mean"):
        if k in s:
            s[k] = d(s[k])
    for k in ("rates", "items", "windows"):
        if k in s:
            s[k] = [d(x) for x in s[k]]


def post(tr):
    for e in tr:
        op = e["op"]
        if op in ("get", "make"):
            e["init"] = int(e["init"]) if e["ty"] in SOURCE else d(e["init"])
        elif op == "upd":
            e["amt"] = d(e["amt"])
        elif op == "setsrc":
            e["v"] = d(e["v"])
        elif op == "snap":
            snap(e["snap"])
        elif op == "agg":
            for s in e.get("out", ()):
                snap(s)
        elif op == "visit":
            for f in e["out"]:
                for x in f["entries"]:
                    snap(x["snap"])
    return tr


# ---- generated short histories --------------------------------------------------------------------------
def given_words(g):
    out = []
    for part, f in g.items():
        if part == "none":
            continue
        kv = []
        for k, v in f.items():
            kv.append("%s=%s" % (k, v if k in ("sc", "q") else int(bool(v))))
        out.append("%s:%s" % (part, ";".join(kv)))
    return " ".join(out)


def short(beh, rng, tail):
    """One generated command sequence as driver lines; ids of instances are those of the specification."""
    out = ["cfg"]
    uni = {1: "gauge", 2: "hist"}
    swap = rng.choice(["none", "types", "none"])
    tmap = {}
    pool = list(ALL)
    rng.shuffle(pool)
    regs, paths = set([1]), []

    def ty(t):
        if swap == "none":
            return t
        if t not in tmap:
            tmap[t] = pool.pop()
            if tmap[t] == "m1b" and "m1" in tmap.values() or tmap[t] == "m1" and "m1b" in tmap.values():
                tmap[t] = "c32"
        return tmap[t]
    for c in beh["cmds"]:
        op, how = c["op"], rng.randrange(6)
        r = c.get("r", 1)
        regs.add(r)
        if "p" in c:
            p = "/".join(c["p"])
            if p not in paths:
                paths.append(p)
        if op == "get":
            t = list(c["t"])
            rng.shuffle(t)
            tt = ty(c["ty"])
            out.append("get %d %s %s %s %d %d" % (r, p, ",".join("=".join(x) for x in t) or "-", tt,
                                                  rng.randint(1, 4) if tt in SOURCE else rng.randint(0, 50), how))
        elif op == "reg":
            t = list(c["t"])
            rng.shuffle(t)
            out.append("reg %d %s %s %d %d %s" % (r, p, ",".join("=".join(x) for x in t) or "-", c["id"], how, "c64"))
        elif op == "make":
            tt = ty(c["ty"])
            out.append("make %s %d" % (tt, rng.randint(1, 4)))
        elif op == "upd":
            out.append("upd %d %d" % (c["id"], rng.randint(1, 99)))
        elif op == "opts":
            out.append("opts %d %d %s" % (r, rng.randrange(32), given_words(rng_opts(rng))))
        elif op == "optsfor":
            out.append("optsfor %d %s %d %s" % (r, p, rng.randrange(32), given_words(rng_opts(rng))))
        elif op == "data":
            out.append("data %d %s %s" % (r, c["ty"], rng.choice([c["arg"], "default", "bad"])))
        elif op == "datafor":
            out.append("datafor %d %s %s %s %d" % (r, c["ty"], rng.choice([c["arg"], c["arg"], "bad"]), p, rng.randrange(2)))
    for r in sorted(regs):
        for p in paths:
            for o in tail:
                if o in ("agg", "eff", "hasm", "mtype"):
                    out.append("%s %d %s" % (o, r, p))
                elif o == "one":
                    out.append("visit %d one %s %s" % (r, "full", p))
                elif o == "has":
                    out += ["has %d %d %s %d" % (r, t, p, v) for t in (1, 2) for v in (0, 1)]
        if "visit" in tail:
            out.append("visit %d all %s" % (r, rng.choice(["full", "full", "some"])))
        if "ropts" in tail:
            out.append("ropts %d" % r)
    return out


# ---- publish options ----------------------------------------------------------------------------------
def rng_opts(rng):
    g = {}
    sc = lambda: rng.choice(["2", "0.5", "-1", "1000", "0.001", "1"])
    if rng.random() < .6:
        g["value"] = {"sc": sc()}
    if rng.random() < .6:
        g["meter"] = m = {}
        if rng.random() < .7:
            m["mean"] = rng.random() < .5
        if rng.random() < .5:
            m["sc"] = sc()
    if rng.random() < .6:
        g["hist"] = h = {}
        q = rng.random() < .5
        n = rng.randrange(3)
        if q:
            h["q"] = rng.randint(1, 3)
        if n >= 1:
            h["cnt"] = rng.random() < .5
        if n >= 2:
            h["dist"] = rng.random() < .5
        if rng.random() < .5 and (not q or n == 2):
            h["sc"] = sc()
    if rng.random() < .7:
        g["timer"] = t = {}
        q = rng.random() < .5
        n = rng.randrange(1 if q else 0, 4)
        if q:
            t["q"] = rng.randint(1, 3)
        for k in ("rates", "cnt", "mean")[:n]:
            t[k] = rng.random() < .5
        if n >= (2 if q else 1) and rng.random() < .5:
            t["sc"] = sc()
    return {k: v for k, v in g.items() if v}


# ---- long seeded histories ------------------------------------------------------------------------------
PATHS = [["a"], ["b"], ["a", "b"], ["b", "a"], ["ab"], ["a/b"], ["a", "b", "c"], ["", "a"], ["", ""], ["a", "", "b"],
         ["x y"], ["A"], ["a", "a"], ["\xe9\xa9"]]
KEYS = {"sk": ["a", "b", "", "A", "a,b", "5", "\n", "long value here"], "s": ["x", "y", "sk"], "sk2": ["a", "b"],
        "ik": ["0", "1", "-1", "5", "9223372036854775807"], "dk": ["0.5", "1", "-2.25", "1073741824"],
        # equal numbers of different types and equal durations of different units are equal tags
        "nk": ["u8:1", "d:1", "i64:2", "ld:1", "f:1", "u64:2", "i8:-1", "i64:-1", "d:-1", "u64:18446744073709551615", "ld:18446744073709551615",
               "i8:0", "d:-0.0", "f:0.5", "ld:0.5", "i64:9007199254740993", "d:9007199254740992", "ld:9007199254740993", "u64:9007199254740992",
               "i16:300", "u32:300", "f:300", "u16:44", "i32:2147483647", "d:2147483647", "f:2147483648"],
        "w": ["s:1", "ms:1000", "us:1000", "ms:1", "ns:1000000", "ns:1", "m:60", "h:1", "s:3600", "s:60", "m:1", "ns:0", "h:0", "m:-1", "s:-60", "h:2562047",
              "m:153722820", "ms:9223369200000", "us:9223372036854775", "ns:9223372036854775000", "ns:9223372036854775001"]}


def same_tag(k, v):
    """The value of a tag, however it is represented."""
    if k not in ("nk", "w"):
        return v
    t, x = v.split(":")
    return Fraction(x) * DURS[t] if k[0] == "w" else Fraction(x)


class Long:
    def __init__(self, rng, types, regs=2, npaths=6, nkeys=3):
        self.rng, self.types = rng, types
        self.regs = list(range(1, regs + 1))
        self.paths = rng.sample(PATHS, npaths)
        self.keys = rng.sample(sorted(KEYS), nkeys)
        self.out = ["cfg"]
        self.model = {}     # (r, path, tags) -> id
        self.fam = {}       # (r, path) -> canonical type
        self.inst = [None]  # id -> canonical type
        self.n = [0]        # samples held
        self.pref = {}

    @staticmethod
    def canon(t):
        return "m1" if t == "m1b" else t

    def norm(self, p):
        return tuple(c for c in p if c)

    def path(self):
        return self.rng.choice(self.paths)

    def tags(self):
        r = self.rng
        ks = [k for k in self.keys if r.random() < .5]
        r.shuffle(ks)
        return [(k, r.choice(KEYS[k][:3] if r.random() < .8 else KEYS[k])) for k in ks]

    def init(self, t):
        r = self.rng
        if t in SOURCE:
            return r.randint(1, 4)
        return r.choice([0, 1, 5, -7, r.randint(-10**6, 10**6)])

    def pick_type(self, r, p):
        f = self.fam.get((r, self.norm(p)))
        if f and self.rng.random() < .8:
            return self.rng.choice([f, "m1b"]) if f == "m1" else f
        return self.rng.choice(self.types)

    def get(self):
        g = self.rng
        r, p, t = g.choice(self.regs), self.path(), self.tags()
        ty = self.pick_type(r, p)
        self.out.append("get %d %s %s %s %d %d" % (r, pw(p), tw(t), ty, self.init(ty), g.randrange(42)))
        self.ensure(r, p, t, ty)

    def ensure(self, r, p, t, ty, i=None):
        k = (r, self.norm(p))
        if k in self.fam and self.fam[k] != self.canon(ty):
            return
        slot = k + (frozenset((x, same_tag(x, v)) for x, v in t),)
        if slot in self.model:
            return
        if i is None:
            self.inst.append(self.canon(ty))
            self.n.append(0)
            i = len(self.inst) - 1
        self.fam[k] = self.canon(ty)
        self.model[slot] = i

    def make(self):
        ty = self.rng.choice(self.types)
        self.out.append("make %s %d" % (ty, self.init(ty)))
        self.inst.append(self.canon(ty))
        self.n.append(0)

    def reg(self):
        g = self.rng
        r, p, t = g.choice(self.regs), self.path(), self.tags()
        i = 0 if g.random() < .08 else g.randrange(1, len(self.inst)) if len(self.inst) > 1 else 0
        if g.random() < .6 and i:
            # where it fits
            c = [k for k, f in self.fam.items() if f == self.inst[i]]
            if c:
                k = g.choice(c)
                r, p = k[0], list(k[1]) or [""]
        if i and self.inst[i] in SAMPLED and self.n[i] and self.total(r, self.norm(p)) + self.n[i] > MAXITEMS:
            return
        self.out.append("reg %d %s %s %d %d c64" % (r, pw(p), tw(t), i, g.randrange(42)))
        if i:
            self.ensure(r, p, t, self.inst[i], i)

    def total(self, r, p):
        return sum(self.n[x] for s, x in self.model.items() if s[:2] == (r, p))

    def room(self, i):
        """samples the families of instance i would hold if it got one more"""
        for slot, j in self.model.items():
            if j == i:
                if self.total(*slot[:2]) >= MAXITEMS:
                    return False
        return self.n[i] < MAXITEMS

    def upd(self):
        g = self.rng
        if len(self.inst) < 2:
            return self.get()
        i = g.randrange(1, len(self.inst))
        ty = self.inst[i]
        if ty in SOURCE:
            return self.out.append("setsrc %d %s" % (g.randint(1, 4), g.choice(["1", "2.5", "-3", "1000000", "0.125"])))
        if ty in SAMPLED:
            slots = sum(1 for s, x in self.model.items() if x == i)
            if slots > 1 or not self.room(i):
                return
            self.n[i] += 1
            return self.out.append("upd %d %d" % (i, g.choice([1, 2, 2, 50, g.randint(1, 10**6)])))
        self.out.append("upd %d %d" % (i, g.choice([1, 1, 2, -3, 7, g.randint(-10**5, 10**6)])))

    def snap(self):
        if len(self.inst) > 1:
            self.out.append("snap %d" % self.rng.randrange(1, len(self.inst)))

    def visit(self):
        g = self.rng
        mode = g.choice(["full", "full", "full", "some"])
        if g.random() < .3:
            self.out.append("visit %d one %s %s" % (g.choice(self.regs), mode, pw(self.path())))
        else:
            self.out.append("visit %d all %s" % (g.choice(self.regs), mode))

    def vthrow(self):
        self.out.append("vthrow %d %d %s" % (self.rng.choice(self.regs), self.rng.randint(1, 6), self.rng.choice(["path", "tag"])))

    def agg(self):
        self.out.append("agg %d %s" % (self.rng.choice(self.regs), pw(self.path())))

    def aggall(self):
        for k in sorted(self.fam):
            self.out.append("agg %d %s" % (k[0], pw(list(k[1]) or [""])))

    def opts(self):
        self.out.append("opts %d %d %s" % (self.rng.choice(self.regs), self.rng.randrange(32), given_words(rng_opts(self.rng))))

    def optsfor(self):
        self.out.append("optsfor %d %s %d %s" % (self.rng.choice(self.regs), pw(self.path()), self.rng.randrange(32), given_words(rng_opts(self.rng))))

    def ropts(self):
        self.out.append("ropts %d" % self.rng.choice(self.regs))

    def eff(self):
        self.out.append("eff %d %s" % (self.rng.choice(self.regs), pw(self.path())))

    def data(self):
        g = self.rng
        self.out.append("data %d %d %s" % (g.choice(self.regs), g.randint(1, 3), g.choice(["x", "y", "default", "bad"])))

    def datafor(self):
        g = self.rng
        v = g.randrange(2)
        self.out.append("datafor %d %d %s %s %d" % (g.choice(self.regs), g.randint(1, 3), g.choice(["x", "y", "bad"] if v else ["x", "y", "default", "bad"]), pw(self.path()), v))

    def has(self):
        g = self.rng
        self.out.append("has %d %d %s %d" % (g.choice(self.regs), g.randint(1, 3), pw(self.path()), g.randrange(2)))

    def hasm(self):
        self.out.append("%s %d %s" % (self.rng.choice(["hasm", "mtype"]), self.rng.choice(self.regs), pw(self.path())))

    def build(self, n, weights, end=()):
        names, w = zip(*weights.items())
        for _ in range(n):
            getattr(self, self.rng.choices(names, w)[0])()
        for e in end:
            getattr(self, e)()
        self.out += ["visit %d all full" % r for r in self.regs]
        return self.out


BASE = {"get": 8, "make": 1, "reg": 2, "upd": 6, "snap": 2, "visit": 1}


def long_scripts(ctx, salt, count, n, weights, types=ALL, end=(), **kw):
    rng = ctx.rng(salt)
    out = []
    for _ in range(count):
        ts = list(types)
        rng.shuffle(ts)
        ts = ts[:rng.choice([1, 2, 3, 6, len(ts)])]
        out.append(Long(rng, ts, **kw).build(n, weights, end))
    return out


def build(ctx):
    return ctx.build("d_registry", ["d_registry.cpp", "clock.cpp"], link=("-latomic",), opt="-O0")


def run(ctx, part, exe, scripts):
    ctx.conform(part, exe, scripts, "RegistryTrace", "RegistryTrace.cfg", post=post)


ASSUME = ["the clock stands still while a registry history runs; moving averages are the subject of P14-P17",
          "25 metric types; at most %d samples in one aggregate" % MAXITEMS,
          "tags of one key always carry values of one family: texts, numbers or durations"]


def generic(ctx, exe, gen, tail, weights, count, types=ALL, end=(), **kw):
    ctx.assumptions += ASSUME
    ctx.model("MCRegistry", "MCRegistry.cfg", "registry laws: stable slots and types, refused requests change nothing")
    rng = ctx.rng("short")
    if gen:
        g = ctx.behaviours("MCRegistry", gen)
        run(ctx, "all short histories", exe, [short(b, rng, tail) for b in g])
    w = dict(BASE)
    w.update(weights)
    run(ctx, "long histories", exe, long_scripts(ctx, "long", count, ctx.pick(60, 90), w, types, end, **kw))


def p02(ctx):
    generic(ctx, build(ctx), ctx.pick("GenRegistry.cfg", "GenRegistryDeep.cfg"), ["visit"], {"get": 20}, ctx.pick(400, 6000))


def p03(ctx):
    exe = build(ctx)
    # every ordered pair of types, then everything else on top
    pairs = []
    rng = ctx.rng("pairs")
    for a in ALL:
        for b in ALL:
            s = ["cfg", "get 1 61 - %s 1 0" % a, "get 1 61 %s %s 2 0" % (rng.choice(["-", "736b=61"]), b), "visit 1 all full",
                 "make %s 3" % b, "reg 1 61 736b=62 %d 0 c64" % (3 if Long.canon(a) == Long.canon(b) else 2), "visit 1 all full", "get 1 61 - %s 1 0" % a]
            pairs.append(s)
    # the id of the made instance depends on whether the second get created one
    fixed = []
    for s in pairs:
        a, b, t2 = s[1].split()[4], s[2].split()[4], s[2].split()[3]
        made = 3 if (Long.canon(a) == Long.canon(b) and t2 != "-") else 2
        fixed.append([x if not x.startswith("reg") else "reg 1 61 736b=62 %d 0 c64" % made for x in s])
    run(ctx, "all pairs of types", exe, fixed)
    generic(ctx, exe, None, [], {"get": 20, "reg": 6}, ctx.pick(400, 6000), npaths=3)


def p04(ctx):
    generic(ctx, build(ctx), ctx.pick("GenRegistry.cfg", "GenRegistryDeep.cfg"), ["visit"], {"reg": 14, "make": 4}, ctx.pick(400, 6000), npaths=4)


def p05(ctx):
    exe = build(ctx)
    run(ctx, "crowded families", exe, [["cfg", "crowd %d" % n] for n in (1, 2, 1000, ctx.pick(400000, 1000000))])
    generic(ctx, exe, ctx.pick("GenRegistry.cfg", "GenRegistryDeep.cfg"), ["visit", "one"], {"visit": 8, "vthrow": 4}, ctx.pick(300, 5000))


def combine_script(cmds, rng):
    """Total, average, meter and timer snapshots merged and moved in any grouping."""
    kind = rng.choice(["cum", "avg", "avg", "meter", "meter", "timer"])
    ty = rng.choice(["i", "d", "ld"] if kind == "cum" else ["i", "i32", "u8", "d", "d", "ld"])
    nw = rng.choice([0, 1, 2, 3]) if kind in ("meter", "timer") else 0
    big = rng.choice([100, 10**6, 10**9]) if ty != "u8" else 255
    if ty == "i32" or (kind == "cum" and ty == "d"):
        big = min(big, 10**6)

    def v():
        if ty == "u8":
            return str(rng.choice([0, 255, rng.randint(0, 255)]))
        x = rng.choice([0, 1, rng.randint(-9, 9), rng.randint(-big, big)])
        return str(x) if ty[0] == "i" else lit(Fraction(x) / rng.choice([1, 1, 4, 1024]))
    out = ["cfg"]
    for c in cmds:
        if c["op"] == "make":
            out.append("make %d %s %s %s" % (c["h"], kind, ty, " ".join(v() for _ in range(nw + 1))))
        elif c["op"] == "merge":
            out += ["merge %d %d" % (c["h"], c["g"]), "look %d" % c["h"], "look %d" % c["g"]]
        else:
            out += ["move %d %d %d" % (c["h"], c["g"], rng.randrange(2)), "look %d" % c["g"]]
    return out


def combine_long(rng):
    held, cmds = [1, 2, 3, 4, 5, 6], [{"op": "make", "h": h} for h in range(1, 7)]
    for _ in range(rng.randint(5, 16)):
        if rng.random() < .15 and len(held) > 2:
            h, g = rng.sample(held, 2)
            held.remove(h)
            cmds.append({"op": "move", "h": h, "g": g})
        else:
            cmds.append({"op": "merge", "h": rng.choice(held), "g": rng.choice(held)})
    return cmds


def combine_post(tr):
    for e in tr:
        for k in ("vals", "out"):
            if k in e:
                e[k] = [d(x) for x in e[k]]
    return tr


def combining(ctx):
    exe = ctx.build("d_combine", ["d_combine.cpp"])
    ctx.model("MCCombine", "MCCombine.cfg", "combining keeps every part with equal weight in every grouping")
    g = ctx.behaviours("MCCombine", "GenCombine.cfg")
    rng = ctx.rng("combine")
    g = rng.sample(g, min(len(g), ctx.pick(2500, 30000)))
    ctx.conform("snapshots merged in every grouping", exe, [combine_script(b["cmds"], rng) for b in g] +
                [combine_script(combine_long(rng), rng) for _ in range(ctx.pick(500, 10000))], "CombineTrace", "CombineTrace.cfg", post=combine_post)


def p06(ctx):
    combining(ctx)
    exe = build(ctx)
    run(ctx, "crowded families", exe, [["cfg", "crowd %d" % n] for n in (1, 2, 1000, ctx.pick(100000, 1000000))])
    generic(ctx, exe, ctx.pick("GenRegistry.cfg", "GenRegistryDeep.cfg"), ["agg", "visit"], {"agg": 5, "upd": 12, "get": 14}, ctx.pick(400, 6000), end=("aggall",), npaths=3)


def p20(ctx):
    exe = build(ctx)
    ctx.model("MCRegistry", "MCRegistryOpts.cfg", "options and data: owners never alias")
    g = ctx.behaviours("MCRegistry", ctx.pick("GenOpts.cfg", "GenOptsDeep.cfg"))
    rng = ctx.rng("short")
    run(ctx, "all short histories", exe, [short(b, rng, ["eff", "ropts"]) for b in g])
    w = {"get": 5, "opts": 4, "optsfor": 8, "ropts": 3, "eff": 8, "datafor": 1, "data": 1, "visit": 1}
    run(ctx, "long histories", exe, long_scripts(ctx, "long", ctx.pick(500, 6000), 50, w, npaths=4))


def p21(ctx):
    exe = build(ctx)
    ctx.model("MCRegistry", "MCRegistryOpts.cfg", "options and data: owners never alias")
    g = ctx.behaviours("MCRegistry", ctx.pick("GenData.cfg", "GenDataDeep.cfg"))
    rng = ctx.rng("short")
    run(ctx, "all short histories", exe, [short(b, rng, ["has", "hasm", "mtype"]) for b in g])
    w = {"get": 5, "opts": 1, "optsfor": 1, "data": 6, "datafor": 8, "has": 8, "hasm": 3, "eff": 1, "reg": 1, "make": 1}
    run(ctx, "long histories", exe, long_scripts(ctx, "long", ctx.pick(500, 6000), 60, w, npaths=4))


def threads(prop):
    from . import conc
    weights = {"P02": {"get": 10, "upd": 4, "reg": 1, "look": 1},
               "P03": {"get": 8, "reg": 5, "look": 1, "vthrow": 1},
               "P04": {"reg": 9, "get": 5, "upd": 3, "look": 1},
               "P05": {"look": 7, "get": 7, "reg": 3, "upd": 1, "agg": 2, "vthrow": 2},
               "P21": {"get": 3, "data": 5, "datafor": 6, "has": 4, "hasm": 1, "look": 1}}[prop]
    seq = {"P02": p02, "P03": p03, "P04": p04, "P05": p05, "P21": p21}[prop]

    def both(ctx):
        seq(ctx)
        conc.registries(ctx, prop, weights, ctx.pick(50, 300))
    return both


CHECKS = {"P06": p06, "P20": p20}
CHECKS.update({p: threads(p) for p in ("P02", "P03", "P04", "P05", "P21")})
