"""P22, P23: what the Prometheus publisher writes."""
import itertools
from ..num import d
from . import registry as R
from .registry import Long, SOURCE, SAMPLED, hx, pw, tw, given_words, rng_opts

TYPES = R.ALL + ["m4", "m5", "t4"]
# components and texts that look like the format itself
ODD = ['"', "\\", "\n", '\\"', "\\n", '"}', "{", "}", "a=b", ",", " ", "\t", "\r", "9", "_", ":", "#", "# TYPE x gauge", "a\nb",
       "\xc3\xa9", "\xe2\x82\xac", "\\\\", 'x"} 1\ny{z="', "-", ".", "%", "A9_z", "\x00", "\x7f", "a\\", "1e5", "'", "\n\n", "end\n"]
ALPHA = ['"', "\\", "\n", "a", "9", "}", ","]


def text(rng):
    return rng.choice(ODD + ["a", "b", "long value here", "a b", ""]) if rng.random() < .7 else \
        "".join(rng.choice(ALPHA + ["n", " ", "=", "\xc3\xa9"]) for _ in range(rng.randint(0, 6)))


def clean(s):
    return "".join(c if c.isascii() and c.isalnum() else "_" for c in s)


def metric_name(comps):
    c = [x for x in comps if x]
    return (("_" if c[0][0].isdigit() else "") + ":".join(clean(x) for x in c)) if c else ""


def label_name(k):
    return ("_" if not k or k[0] in "0123456789" else "") + clean(k)


SUFFIX = ["", "_count", "_sum", "_mean", "_bucket", ":rates"]


def apart(paths):
    """drop paths whose names would meet"""
    out, used = [], set()
    for p in paths:
        n = metric_name(p)
        if not n:
            out.append(p)
            continue
        mine = {n + s for s in SUFFIX}
        if not mine & used:
            used |= mine
            out.append(p)
    return out


def keys(rng, n):
    out, used = [], set()
    while len(out) < n:
        t = rng.choice("siisd")[0]
        k = rng.choice(["s", "s", "s", "i", "d", ""]) + text(rng)[:5]
        if not k or k[0] not in "sid":
            k = "s" + k if rng.random() < .3 or not k else k
        l = label_name(k)
        if l in used or l in ("quantile", "window") or k in ("nk", "w"):
            continue
        used.add(l)
        out.append(k)
    return out


def value(rng, k):
    if k[0] == "i":
        return rng.choice(["0", "1", "-1", "5", "9223372036854775807"])
    if k[0] == "d":
        return rng.choice(["0.5", "1", "-2.25", "1073741824", "0.125"])
    return text(rng)


class Odd(Long):
    def __init__(self, rng, types, npaths=5, nkeys=3, plain=False, moving=False):
        Long.__init__(self, rng, types, regs=2, npaths=1, nkeys=1)
        ps = [["a"], ["a", "b"], ["b", "a"]] if plain else []
        while len(ps) < npaths * 2:
            ps.append([text(rng) for _ in range(rng.choice([1, 1, 2, 3]))])
        rng.shuffle(ps)
        self.paths = apart(ps)[:npaths]
        self.keys = keys(rng, nkeys)
        self.moving = moving
        self.values = {k: [value(rng, k) for _ in range(3)] for k in self.keys}

    def tags(self):
        r = self.rng
        ks = [k for k in self.keys if r.random() < .5]
        r.shuffle(ks)
        return [(k, r.choice(self.values[k])) for k in ks]

    def publish(self):
        self.out.append("publish %d %d" % (self.rng.choice(self.regs), 1 if self.moving else self.rng.randrange(2)))

    def adv(self):
        if self.moving:
            self.out.append("adv %d" % self.rng.choice([1, 250000000, 1000000000, 1000000000, 5000000000, 61000000000, 3000000000]))

    def build(self, n, weights):
        names, w = zip(*weights.items())
        for _ in range(n):
            getattr(self, self.rng.choices(names, w)[0])()
        self.out += ["publish %d 1" % r for r in self.regs]
        return self.out


def post(tr):
    factors = {"-": [1, 0, [1]]}
    for e in tr:
        op = e["op"]
        if op == "adv":
            e["ns"] = d(e["ns"])
        elif op in ("opts", "optsfor"):
            for part in e["given"].values():
                if isinstance(part, dict) and "sc" in part:
                    factors[part["sc"]] = d(part["sc"])
        elif op == "publish":
            for which in ("before", "after"):
                for f in e.get(which, ()):
                    for x in f["entries"]:
                        R.snap(x["snap"])
    tr[0]["factors"] = [[k, v] for k, v in sorted(factors.items())]
    return R.post(tr)


def build(ctx):
    return ctx.build("d_prom", ["d_registry.cpp", "clock.cpp"], flags=("-DWITH_PROMETHEUS",), link=("-latomic",), opt="-O0")


def run(ctx, part, exe, scripts, what):
    ctx.conform(part, exe, scripts, "PromTrace", "PromTextTrace.cfg" if what == "text" else "PromValuesTrace.cfg", post=post)


def by_kind(ctx, rng, n):
    """each kind of metric on its own: every type, several tag sets, some samples, published before and after"""
    out = []
    for ty in TYPES:
        for k in range(n):
            o = Odd(rng, [ty], npaths=2, nkeys=2, plain=k % 2 == 0)
            p = next((x for x in o.paths if any(x)), ["a"])
            s = ["cfg", "publish 1 1"]
            tags = [[], [(o.keys[0], o.values[o.keys[0]][0])], [(x, o.values[x][1]) for x in o.keys]][:rng.randint(1, 3)]
            rng.shuffle(tags)
            for i, t in enumerate(tags):
                s.append("get 1 %s %s %s %d %d" % (pw(p), tw(t), ty, (i + 1) if ty in SOURCE else 3 + i, rng.randrange(42)))
            s.append("publish 1 0")
            for i in range(len(tags)):
                if ty in SOURCE:
                    s.append("setsrc %d %s" % (i + 1, rng.choice(["1", "2.5", "-3", "0.125", "1000000"])))
                else:
                    s += ["upd %d %d" % (i + 1, rng.choice([1, 7, 1000, 123456, rng.randint(1, 10**7)])) for _ in range(rng.randint(0, 5 // len(tags) + 1))]
            s.append("publish 1 1")
            s.append("%s %d %s" % ("opts 1" if rng.random() < .5 else "optsfor 1 " + pw(p), rng.randrange(32), given_words(rng_opts(rng))))
            s.append("publish 1 1")
            out.append(s)
    return out


def by_options(rng):
    """every combination of switches, with and without a scale"""
    out = []
    flags = lambda n: itertools.product([0, 1], repeat=n)
    sc = lambda: rng.choice(["", ";sc=2", ";sc=0.5", ";sc=-1", ";sc=1000", ";sc=0.001"])
    words = [("m4", "meter:mean=%d%s" % (m, sc())) for m, in flags(1) for _ in range(3)]
    words += [("hl", "hist:%scnt=%d;dist=%d%s" % (rng.choice(["", "q=1;", "q=2;", "q=3;"]), c, x, sc())) for c, x in flags(2) for _ in range(3)]
    words += [(rng.choice(["t4", "t2", "t3"]), "timer:%srates=%d;cnt=%d;mean=%d%s" % (rng.choice(["", "q=1;", "q=2;"]), r, c, m, sc()))
              for r, c, m in flags(3) for _ in range(3)]
    words += [(rng.choice(["c64", "g", "gfs", "e1", "c32", "gis"]), "value:sc=%s" % x) for x in ("2", "0.5", "-1", "1000", "0.001", "1") for _ in range(2)]
    for ty, w in words:
        other = rng.choice(["c64", "m2", "hu", "t1"])
        s = ["cfg", "get 1 61 - %s 1 0" % ty, "get 1 61 %s %s 2 0" % (tw([("sk", "x")]), ty), "get 1 62 - %s 1 0" % other]
        for i in (1, 2):
            s += ["setsrc %d 7.5" % i if ty in SOURCE else "upd %d %d" % (i, rng.randint(1, 10**6)) for _ in range(2)]
        s += ["upd 3 %d" % rng.randint(1, 10**6)]
        how = rng.randrange(32)
        s += [rng.choice(["opts 1 %d %s" % (how, w), "optsfor 1 61 %d %s" % (how, w)]), "publish 1 1"]
        if rng.random() < .5:
            s += ["adv 2500000000", "publish 1 1"]
        out.append(s)
    return out


ASSUME = ["paths whose names meet once characters outside [a-zA-Z0-9] are replaced, and tags that meet each other or the labels quantile and window, are not generated",
          "string-valued and non-finite gauges are not published",
          "at most %d samples in one histogram or timer" % R.MAXITEMS]


def p22(ctx):
    ctx.assumptions += ASSUME
    ctx.model("MCProm", "MCProm.cfg", "the format: everything written with escapes is read back, all labels up to the bound")
    exe = build(ctx)
    rng = ctx.rng("prom")
    # every text up to three characters of the troublesome ones, as a path, as a tag's key and as a tag's value
    texts = ["".join(x) for n in (1, 2, 3) for x in itertools.product(ALPHA, repeat=n)]
    if ctx.pick(1, 0):
        texts = texts[:len(ALPHA) + len(ALPHA) ** 2] + rng.sample(texts[len(ALPHA) + len(ALPHA) ** 2:], 120)
    out = []
    for t in texts + ODD:
        for ty in rng.sample(["c64", "g", "m2", "hl", "t2", "e1"], ctx.pick(1, 3)):
            s = ["cfg"]
            where = rng.randrange(3)
            s.append("get 1 %s %s %s 1 0" % (pw([t] if where == 0 else ["p", t] if where == 1 else ["p"]), tw([("s" + t, t)]), ty))
            s.append("get 1 %s %s %s 1 1" % (pw([t] if where == 0 else ["p", t] if where == 1 else ["p"]), tw([("s" + t, t), ("k", "x") if label_name("s" + t) != "k" else ("kk", "x")]), ty))
            s.append("publish 1 0")
            out.append(s)
    run(ctx, "troublesome texts", exe, out, "text")
    w = {"get": 12, "upd": 3, "reg": 1, "make": 1, "opts": 1, "optsfor": 1, "setsrc": 0, "publish": 2}
    del w["setsrc"]
    out = []
    for i in range(ctx.pick(250, 3000)):
        ts = rng.sample(TYPES, rng.choice([1, 3, 8]))
        out.append(Odd(rng, ts, npaths=rng.choice([2, 5, 9])).build(ctx.pick(25, 50), w))
    run(ctx, "long histories", exe, out, "text")


def p23(ctx):
    ctx.assumptions += ASSUME
    exe = build(ctx)
    rng = ctx.rng("prom")
    run(ctx, "every kind of metric", exe, by_kind(ctx, rng, ctx.pick(8, 60)), "values")
    run(ctx, "every combination of options", exe, [s for _ in range(ctx.pick(1, 12)) for s in by_options(rng)], "values")
    w = {"get": 10, "upd": 9, "reg": 1, "make": 1, "opts": 1, "optsfor": 2, "publish": 2, "adv": 2}
    out = []
    for i in range(ctx.pick(160, 3000)):
        ts = rng.sample(TYPES, rng.choice([1, 3, 8]))
        out.append(Odd(rng, ts, npaths=rng.choice([2, 4, 6]), plain=i % 2 == 0, moving=i % 3 == 0).build(ctx.pick(30, 60), w))
    run(ctx, "long histories", exe, out, "values")


CHECKS = {"P22": p22, "P23": p23}
