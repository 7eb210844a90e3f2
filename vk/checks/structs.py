"""P24, P25, P26: lock-free stack, object pool, skip list."""


def build(ctx):
    return ctx.build("d_struct", ["d_struct.cpp", "clock.cpp"], link=("-latomic",), opt="-O1")


# ---- stacks -----------------------------------------------------------------------------------------
LIFOS = ["lifo", "lifo", "lifo-linked", "lifo-only"]


def lline(c, rng, kind):
    op = c["op"]
    if op in ("llist", "lrange"):
        if kind != "lifo":
            op = None
        else:
            return "%s %d %s" % (op, c["h"], " ".join(map(str, c["vs"])))
    if op == "push":
        return "%s %d %d" % (rng.choice(["push", "emplace"]), c["h"], c["v"])
    if op == "give":
        return "give %d %d %d" % (c["p"], c["q"], rng.randrange(2))
    if op is None:
        return None
    return " ".join([op] + [str(c[k]) for k in ("h", "g", "p", "q", "v") if k in c])


def lscript(beh, rng):
    kind = rng.choice(LIFOS)
    if any(c["op"] in ("llist", "lrange") for c in beh["cmds"]):
        kind = "lifo"
    out = ["cfg " + kind, "lnew 1"]
    up = {1}
    for c in beh["cmds"]:
        out.append(lline(c, rng, kind))
        if c["op"] in ("lnew", "llist", "lrange"):
            up.add(c["h"])
        elif c["op"] == "lmove":
            up.add(c["g"])
        elif c["op"] == "lkill":
            up.discard(c["h"])
        out.append("alive")
    out += ["peek 1", "peek 2"]
    for s in sorted(up):
        out += ["pop %d 3" % s] * rng.randint(2, 7)
    return out + ["alive", "end"]


def llong(rng, n):
    kind = rng.choice(LIFOS)
    out, up, v = ["cfg " + kind, "lnew 1"], {1}, 0
    held = set()
    for _ in range(n):
        v += 1
        x = rng.choice([v, v, v % 3])
        op = rng.choice(["push"] * 6 + ["pop"] * 5 + ["back"] * 3 + ["make", "drop", "give", "put", "peek", "new", "lmove", "lkill", "alive"])
        s = rng.choice(sorted(up)) if up else None
        free = [h for h in (1, 2, 3) if h not in up]
        if op == "new" and free:
            h = rng.choice(free)
            how = rng.choice(["lnew", "llist", "lrange"]) if kind == "lifo" else "lnew"
            out.append("%s %d %s" % (how, h, " ".join(str(v * 10 + k) for k in range(rng.randint(0, 4 if how == "llist" else 9))) if how != "lnew" else ""))
            up.add(h)
        elif op == "lmove" and free and s:
            h = rng.choice(free)
            out.append("lmove %d %d" % (s, h))
            up.add(h)
        elif op == "lkill" and s and rng.random() < .4:
            out.append("lkill %d" % s)
            up.discard(s)
        elif op == "push" and s:
            out.append("%s %d %d" % (rng.choice(["push", "emplace"]), s, x))
        elif op in ("pop", "make", "back") and s:
            p = rng.randint(1, 4)
            out.append("%s %d %d %s" % (op, s, p, x if op == "make" else ""))
            if op == "pop":
                out.append("peek %d" % p)
            (held.discard if op in ("back", "pop") else held.add)(p)
        elif op == "drop":
            p = rng.randint(1, 4)
            out.append("drop %d" % p)
            held.discard(p)
        elif op == "give":
            p, q = rng.sample([1, 2, 3, 4], 2)
            out.append("give %d %d %d" % (p, q, rng.randrange(2)))
            if p in held:
                held.discard(p)
                held.add(q)
            else:
                held.discard(q)
        elif op == "put" and held:
            out.append("put %d %d" % (rng.choice(sorted(held)), x))
        elif op in ("peek", "alive"):
            out.append("peek %d" % rng.randint(1, 4) if op == "peek" else "alive")
    for s in sorted(up):
        out += ["pop %d 5" % s] * 12
    return out + ["alive", "end"]


def p24(ctx):
    exe = build(ctx)
    ctx.model("MCLifo", "MCLifo.cfg", "stack laws: nothing lost, duplicated or invented")
    g = ctx.behaviours("MCLifo", ctx.pick("GenLifo.cfg", "GenLifoDeep.cfg"))
    rng = ctx.rng("lifo")
    g = rng.sample(g, min(len(g), ctx.pick(4000, 60000)))
    ctx.conform("stacks: short histories", exe, [lscript(b, rng) for b in g], "LifoTrace", "LifoTrace.cfg", timeout=600)
    ctx.conform("stacks: long histories", exe, [llong(rng, 60) for _ in range(ctx.pick(800, 10000))], "LifoTrace", "LifoTrace.cfg",
                timeout=600)
    from .conc import stacks_par
    stacks_par(ctx)


# ---- pools ------------------------------------------------------------------------------------------
def ppline(c, rng):
    op = c["op"]
    if op == "alloc":
        return "alloc %d %d" % (c["h"], c["v"])
    if op == "put":
        return "put %d %d" % (c["h"], c["v"])
    if op == "null":
        return rng.choice(["null %d", "null %d 1", "drop %d"]) % c["h"]
    if op in ("assign", "massign"):
        how = {"assign": ["assign", "copy"], "massign": ["massign", "move"]}[op]
        return "%s %d %d" % (how[0] if c["h"] == c["g"] else rng.choice(how), c["h"], c["g"])
    return "%s %d %d %d" % (op, c["h"], c["g"], c["r"])


def pscript(beh, rng):
    out = ["cfg pool"]
    hs = (1, 2, 3)
    for c in beh["cmds"]:
        out.append(ppline(c, rng))
        out.append("alive")
        if rng.random() < .5:
            out += ["get %d" % h for h in hs]
    out += ["get %d" % h for h in hs] + ["eq %d %d" % (a, b) for a in hs for b in hs if a <= b]
    for h in hs:
        out += ["null %d" % h, "alive"]
    for h in hs:
        out.append("alloc %d %d" % (h, 900 + h))
    out += ["get %d" % h for h in hs] + ["alive"]
    return out + ["end"]


def plong(rng, n):
    out, v = ["cfg pool"], 0
    nh = rng.choice([2, 4, 8])
    H = lambda: rng.randint(1, nh)
    null = {h: True for h in range(1, nh + 1)}
    for _ in range(n):
        v += 1
        op = rng.choice(["alloc"] * 5 + ["null"] * 3 + ["drop", "copy", "assign", "assign", "move", "massign", "xchg", "xchg", "cas", "cas",
                         "put", "get", "get", "eq", "alive"])
        h, g, r = H(), H(), H()
        if op == "alloc":
            out.append("alloc %d %d" % (h, rng.choice([v, v, 0])))
        elif op in ("null", "drop", "get"):
            out.append("%s %d %s" % (op, h, rng.randrange(2) if op == "null" else ""))
        elif op in ("copy", "assign", "move", "massign", "eq"):
            out.append("%s %d %d" % (op, h, g))
        elif op in ("xchg", "cas"):
            out.append("%s %d %d %d" % (op, h, g, r))
        elif op == "put":
            out += ["alloc %d %d" % (h, v), "assign %d %d" % (h, g), "put %d %d" % (h, v + 1000), "get %d" % g]
        else:
            out.append("alive")
    for h in range(1, nh + 1):
        out += ["get %d" % h, "null %d" % h, "alive"]
    return out + ["end"]


def p25(ctx):
    exe = build(ctx)
    ctx.assumptions += ["a handle moved onto itself may keep or release its object", "handles do not outlive their pool"]
    ctx.model("MCPool", "MCPool.cfg", "pooled handle laws: one life per object, values private to owners")
    g = ctx.behaviours("MCPool", ctx.pick("GenPool.cfg", "GenPoolDeep.cfg"))
    g += ctx.behaviours("MCPool", "SimPool.cfg", simulate=ctx.pick(1500, 20000), depth=14)
    rng = ctx.rng("pool")
    g = rng.sample(g, min(len(g), ctx.pick(5000, 60000)))
    ctx.conform("pools: short histories", exe, [pscript(b, rng) for b in g], "PoolTrace", "PoolTrace.cfg", timeout=600)
    ctx.conform("pools: long histories", exe, [plong(rng, 60) for _ in range(ctx.pick(600, 10000))], "PoolTrace", "PoolTrace.cfg",
                timeout=600)
    from .conc import pools_par
    pools_par(ctx)


# ---- skip lists -------------------------------------------------------------------------------------
SKIPS = ["skip2", "skip4", "skip16", "skip16", "skip128", "skipdown", "skiptext"]


def sscript(beh, rng):
    out = ["cfg " + rng.choice(SKIPS), "burn %d" % rng.randrange(60), "new"]
    for c in beh["cmds"]:
        out.append(" ".join([c["op"]] + [str(c[k]) for k in ("k", "t", "i", "m", "r") if k in c]))
        out.append("list")
    out += ["find %d 2" % k for k in (1, 2, 3)] + ["ins 2 77", "list"]
    return out


def slong(rng, n):
    out = ["cfg " + rng.choice(SKIPS), "burn %d" % rng.randrange(2000), "new"]
    span = rng.choice([3, 8, 30, 200])
    keys = set()
    at = {}
    t = 0
    grow = rng.random()
    for _ in range(n):
        t += 1
        k = rng.randint(-span if rng.random() < .2 else 0, span) if span < 200 else rng.randint(0, span)
        k = abs(k)
        op = rng.choice(["ins"] * 8 + ["del"] * (8 if grow < .5 else 3) + ["find"] * 3 + ["begin", "step", "step", "delat", "list", "ieq", "icopy", "get", "sweep"])
        i = rng.randint(1, 3)
        if op == "ins":
            out.append("ins %d %d" % (k, t))
            if k not in keys:
                keys.add(k)
        elif op == "del":
            if keys and rng.random() < .6:
                k = rng.choice(sorted(keys))
            out.append("del %d" % k)
            keys.discard(k)
            for j in at:
                if at[j] == k:
                    at[j] = "gone"
        elif op == "find":
            if keys and rng.random() < .6:
                k = rng.choice(sorted(keys))
            out.append("find %d %d" % (k, i))
            at[i] = k if k in keys else "end"
        elif op == "begin":
            out.append("begin %d" % i)
            # which end it starts at depends on the order: only use it at once
            out.append("get %d" % i)
            at.pop(i, None)
            if keys:
                m = "?"
                at[i] = m
        elif op == "step":
            if at.get(i, "gone") not in ("gone",):
                out += ["step %d" % i, "get %d" % i]
                at[i] = "?"
        elif op == "delat":
            if i in at:
                if at[i] == "?":
                    continue
                out.append("delat %d" % i)
                if at[i] not in ("gone", "end"):
                    keys.discard(at[i])
                    for j in list(at):
                        if at[j] == at[i] and j != i:
                            at[j] = "gone"
                        elif at[j] == "?":
                            at.pop(j)
                    at[i] = "gone"
        elif op == "icopy":
            j = rng.randint(1, 3)
            if i in at:
                out.append("icopy %d %d %d" % (i, j, rng.randrange(2)))
                at[j] = at[i]
        elif op == "ieq":
            j = rng.randint(1, 3)
            if i in at and j in at:
                out.append("ieq %d %d" % (i, j))
        elif op == "sweep":
            m = rng.choice([1, 2, 2, 3, 5, 7])
            r = rng.randrange(m)
            if m == 1 and rng.random() < .7:
                continue
            out += ["sweep %d %d" % (m, r), "list"]
            for j in list(at):
                if at[j] == "?":
                    at.pop(j)
                elif at[j] != "end" and at[j] in keys and at[j] % m == r:
                    at[j] = "gone"
            keys = {x for x in keys if x % m != r}
        elif op == "get":
            if at.get(i, "gone") != "gone":
                out.append("get %d" % i)
        else:
            out.append("list")
        if op == "del":
            for j in list(at):
                if at[j] == "?":
                    at.pop(j)
    out.append("list")
    for k in sorted(keys, key=lambda _: rng.random()):
        out.append("del %d" % k)
        if rng.random() < .3:
            out.append("list")
    out += ["list"] + ["ins %d 5" % k for k in rng.sample(range(40), 6)] + ["list"]
    return out


def p26(ctx):
    exe = build(ctx)
    ctx.assumptions += ["one thread at a time: the property is about histories, not schedules"]
    ctx.model("MCSkip", "MCSkip.cfg", "sorted set laws: distinct keys, ascending, removed elements never return")
    g = ctx.behaviours("MCSkip", ctx.pick("GenSkip.cfg", "GenSkipDeep.cfg"))
    rng = ctx.rng("skip")
    g = rng.sample(g, min(len(g), ctx.pick(6000, 100000)))
    ctx.conform("skip lists: short histories", exe, [sscript(b, rng) for b in g], "SkipTrace", "SkipTrace.cfg", timeout=600)
    ctx.conform("skip lists: long histories", exe, [slong(rng, 80) for _ in range(ctx.pick(1500, 20000))], "SkipTrace", "SkipTrace.cfg",
                timeout=600)


CHECKS = {"P24": p24, "P25": p25, "P26": p26}
