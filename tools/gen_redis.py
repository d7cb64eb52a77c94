"""Scripts for the driver of the Redis-backed registry and cache."""

from gen_captcha import longnames

NAMES = ["site", "a", "b", "a:b", "a:", ":a", ":", "", " ", "a b", "ü", "日本", "{a}", "{a}b", "a{b}", "\"", "\\", "a\\:b",
         "%s", "x" * 300, "A", "*", "a\nb", "a\r\nb", "\0", "MCAPTCHA_CACHE.GET", "1:a", "-1", "0"]
REGISTRY = ["add", "visit", "rename", "remove"]
CACHE = ["store", "take", "tok", "val"]
DIRECT = REGISTRY + ["exists", "count"] + CACHE + ["drop", "untok", "ping"]
FAULTS = ["error", "closebefore", "closeafter", "partial", "junk", "late", "wrongtype", "garbage", "fields", "range", "binary", "nil"]
SETUP = ["error", "closebefore", "closeafter", "partial", "late", "junk", "nil", "garbage"]
U32, U64 = 2**32 - 1, 2**64 - 1


def levels(rng, odd=False):
    n = rng.choice([1, 1, 2, 3, 5, 12, 12, 30, 100] if odd else [1, 2, 3])
    v, d = 0, 1
    out = []
    step = rng.choice([[1, 1, 3, 1000], [0, 1, 3], [0]] if odd else [[1, 3, 1000], [0, 1, 3]])
    d = rng.choice([1, 1, 2, 100])
    for k in range(n):
        v += rng.choice([1, 1, 2, 5, 50])
        d += rng.choice(step) if k else 0
        if odd and k == n - 1 and rng.random() < 0.5:
            v, d = rng.choice([(U32, U32), (v, U32), (U32, d), (2**31, d), (v, 2**31)])
        out.append([v, d])
    rng.shuffle(out)
    return out


class G:
    """Generator state: a script under construction."""

    def __init__(self, rng, clients, names=None, strings=None):
        self.rng, self.n = rng, 0
        self.clients = clients            # (name, kind)
        self.names = names or (longnames(rng)[:3] if rng.random() < 0.15 else rng.sample(NAMES, rng.choice([1, 2, 3])))
        self.strings = strings or [f"s{i}" for i in range(rng.choice([1, 2, 4]))]
        self.ops = [["connect", c, k] for c, k in clients]
        self.stored, self.toks, self.busy = [], [], {}

    def duration(self):
        return self.rng.choice([1, 2, 5, 30, 30, 100])

    def args(self, op, odd=False):
        rng = self.rng
        n = rng.choice(self.names)
        if op == "add":
            return [n, levels(rng, odd), rng.choice([1, 30, U64, 2**63, 0x7fffffff, 30]) if odd else rng.choice([1, 5, 30])]
        if op == "rename":
            return [n, rng.choice(self.names)]
        if op in ("visit", "remove", "exists", "count"):
            return [n]
        if op == "ping":
            return []
        known = self.stored if op in ("take", "drop") else self.toks
        s = rng.choice(self.strings)
        if op in ("take", "drop", "val", "untok"):
            if known and rng.random() < 0.75:
                n, s = rng.choice(known)
                r = rng.random()
                if r < 0.1:
                    n = rng.choice(self.names)
                elif r < 0.2:
                    s = rng.choice(self.strings)
            return [n, s]
        known.append((n, s))
        if op == "store":
            self.stored.append((n, s))
            return [n, s, rng.choice([1, 7, 1000, U32, rng.randrange(1, 2**32)]),
                    rng.choice([0, U64, 2**40]) if odd and rng.random() < 0.3 else self.duration()]
        self.toks.append((n, s))
        return [n, s, rng.choice([0, U64, 2**63 - 1, 2**63, 2**40]) if odd and rng.random() < 0.3 else self.duration()]

    def call(self, op=None, client=None, odd=False, args=None):
        rng = self.rng
        c, k = client or rng.choice(self.clients)
        op = op or rng.choice({"registry": REGISTRY, "cache": CACHE, "direct": DIRECT}[k])
        self.n += 1
        i = str(self.n)
        self.ops.append(["call", i, c, op] + (args or self.args(op, odd)))
        if k == "direct":             # one call at a time
            self.ops.append(["await", i])
            return None
        return i

    def batch(self, n, odd=False, opsel=None, wait=True):
        ids = []
        for _ in range(n):
            i = self.call(opsel() if opsel else None, odd=odd)
            if i:
                ids.append(i)
        if ids and wait:
            self.rng.shuffle(ids)
            self.ops.append(["await"] + ids)
        return ids

    def final(self):
        """A plain round with every client: is everybody still well?"""
        self.ops += [["release"], ["settle"]]
        for c, k in self.clients:
            cl = (c, k)
            ids = []
            if k != "cache":
                ids += [self.call("add", cl, args=["fin", [[3, 2], [9, 5]], 30]), self.call("visit", cl, args=["fin"]),
                        self.call("visit", cl, args=["fin"]), self.call("rename", cl, args=["fin", "fin2"]),
                        self.call("visit", cl, args=["fin2"]), self.call("visit", cl, args=["fin"]),
                        self.call("remove", cl, args=["fin2"]), self.call("remove", cl, args=["fin2"])]
            if k != "registry":
                ids += [self.call("store", cl, args=["fin", c, 5, 9]), self.call("take", cl, args=["fin", c]),
                        self.call("take", cl, args=["fin", c]), self.call("tok", cl, args=["fin", c, 9]),
                        self.call("val", cl, args=["fin2", c]), self.call("val", cl, args=["fin", c]),
                        self.call("val", cl, args=["fin", c])]
            ids = [i for i in ids if i]
            if ids:
                self.ops.append(["await"] + ids)

    def out(self, odd=None):
        self.final()
        s = dict(ops=self.ops)
        if odd is not None:
            s["odd"] = odd
        return s


def relay(rng):
    """The registry, with all kinds of configurations and answers."""
    g = G(rng, rng.choice([[("m", "registry")], [("m", "registry"), ("d", "direct")], [("m", "registry"), ("m2", "registry")]]))
    if rng.random() < 0.3:            # several clients at once: the same few names
        g.names = g.names[:2]
    weights = rng.choice([["add", "visit", "visit", "visit", "rename", "remove"], ["visit"] * 6 + ["add"], ["add", "rename", "rename", "visit"]])
    for n in g.names:
        g.batch(1, opsel=lambda: "add", odd=True)
    for _ in range(rng.choice([4, 8, 12])):
        g.batch(rng.choice([1, 1, 2, 5, 12]), odd=rng.random() < 0.5,
                opsel=lambda: rng.choice(weights))
        if rng.random() < 0.5 and len(g.clients) > 1 and g.clients[1][1] == "direct":
            g.call(rng.choice(["exists", "count"]), g.clients[1])
    return g.out(rng.choice([None, rng.randrange(1 << 60)]))


def cache(rng):
    """Challenges and tokens, weird names, waits around the ends of durations."""
    g = G(rng, rng.choice([[("c", "cache")], [("c", "cache"), ("c2", "cache")], [("c", "cache"), ("d", "direct")]]),
          names=longnames(rng)[:4] if rng.random() < 0.1 else rng.sample(NAMES, rng.choice([2, 3, 4])),
          strings=longnames(rng)[:4] if rng.random() < 0.1 else rng.sample(NAMES, rng.choice([1, 2, 4])))
    last = 1
    for _ in range(rng.choice([6, 12, 18])):
        r = rng.random()
        if r < 0.25:
            g.ops.append(["wait", rng.choice([500, 900, 1000, 1100, 2000, 4500, 5000, 5500, 30000, 29500])])
            continue
        if r < 0.35:      # one string for all names, and every combination tried
            op = rng.choice(["store", "tok"])
            back = {"store": "take", "tok": "val"}[op]
            dur = g.duration()
            cl = g.clients[0]
            pairs = [(n, s) for n in g.names for s in g.strings]
            sub = rng.sample(pairs, rng.randint(1, len(pairs)))
            ids = [g.call(op, cl, args=[n, s] + ([k + 3, dur] if op == "store" else [dur])) for k, (n, s) in enumerate(sub)]
            if rng.random() < 0.3:
                g.ops.append(["await"] + ids)
                ids = []
                g.ops.append(["wait", rng.choice([dur * 1000 - 300, dur * 1000, dur * 1000 + 300])])
            rng.shuffle(pairs)
            ids += [g.call(back, cl, args=[n, s]) for n, s in pairs + pairs[:2]]
            g.ops.append(["await"] + ids)
            continue
        g.batch(rng.choice([1, 2, 4, 8]), odd=True)
        # exactly around the end of a duration
        if rng.random() < 0.3 and g.stored:
            n, s = rng.choice(g.stored)
            d = g.duration()
            i = g.call("store", g.clients[0], args=[n, s, 9, d])
            g.ops += [["await", i], ["wait", d * 1000 + rng.choice([-200, 0, 200])]]
            j = g.call("take", g.clients[0], args=[n, s])
            g.ops.append(["await", j])
    return g.out()


def lasting(rng):
    """Long durations, looked at shortly before and after their end."""
    sec = rng.random() < 0.6          # times in seconds
    top = 10**9 if sec else 5 * 10**5
    lo = 20 if sec else 1
    g = G(rng, rng.choice([[("c", "cache")], [("c", "cache"), ("c2", "cache")], [("c", "cache"), ("d", "direct")]]),
          names=rng.sample(NAMES, 3), strings=[f"s{i}" for i in range(12)])
    pool = sorted({max(lo, min(top, x + y)) for x in [2**k for k in range(3, 30)] + [10**k for k in range(1, 10)] +
                   [60 * k for k in (1, 2, 5, 10, 30, 45)] + [3600 * k for k in (1, 2, 6, 12, 24, 48, 72, 168, 240, 720, 744, 8760)]
                   for y in (-1, 0, 1)})
    ends = []
    for k in range(rng.choice([4, 8, 12])):
        op = rng.choice(["store", "tok"])
        d = rng.choice(pool) if rng.random() < 0.8 else rng.randint(lo, top)
        if rng.random() < 0.5:
            d = min(d, rng.choice([100, 4000, 100000]))
        nm, st = rng.choice(g.names), f"s{k}"
        cl = rng.choice(g.clients)
        i = g.call(op, cl, args=[nm, st] + ([k + 3, d] if op == "store" else [d]))
        if i:
            g.ops.append(["await", i])
        ends.append((d, op, nm, st))
    m = 10 if sec else 0.4
    look = []
    for d, op, nm, st in ends:
        look.append((d - m if rng.random() < 0.5 else d + m, op, nm, st))
        if rng.random() < 0.3:
            look.append((d + m, op, nm, st))
        if rng.random() < 0.3:
            look.append((d * rng.choice([0.3, 0.5, 0.9]), op, nm, st))
    look.sort()
    last = 0
    for at, op, nm, st in look:
        at = max(at, 0)
        g.ops.append(["wait", int((at - last) * 1000)])
        last = max(at, last)
        i = g.call({"store": "take", "tok": "val"}[op], rng.choice(g.clients), args=[nm, st])
        if i:
            g.ops.append(["await", i])
    o = g.out()
    if sec:
        o["unit"] = 1000
    return o


def product(rng):
    """All pairs of short strings made of the same few characters, at once."""
    import itertools
    abc = ["a", rng.choice([":", ":", ":", "/", "|", "-", " ", "\0", "{", "1"]), rng.choice(["ü", "ü", "1", "A", "\u00a0", "漢"])]
    every = ["".join(x) for n in range(4) for x in itertools.product(abc, repeat=n)]
    ns, ss = rng.sample(every, 20), rng.sample(every, 20)
    g = G(rng, [("c", "cache")], names=ns, strings=ss)
    cl = g.clients[0]
    op, back = rng.choice([("tok", "val"), ("tok", "val"), ("store", "take")])
    pairs = [(n, s) for n in ns for s in ss]
    rng.shuffle(pairs)
    for o in (op, back, back):
        for k in range(0, len(pairs), 50):
            g.ops.append(["await"] + [g.call(o, cl, args=[n, s] + ([] if o == back else [k + 3, 3000] if op == "store" else [3000]))
                                      for n, s in pairs[k:k + 50]])
        rng.shuffle(pairs)
        if o == back:
            pairs = pairs[:100]
    return g.out()


def collide(rng):
    """Pairs of site and token that look alike once they are joined."""
    sep = rng.choice([":", "::", "/", "|", ".", "-", "_", ",", " ", "\0", "\n", ";", "#", "@", "=", "", "1:", ":1:", "}{"])
    parts = [rng.choice(["a", "b", "1", "", "aa", "12"]) for _ in range(4)]
    pairs = []
    for k in range(1, len(parts)):
        pairs.append((sep.join(parts[:k]), sep.join(parts[k:])))
    g = G(rng, [("c", "cache")], names=[p[0] for p in pairs], strings=[p[1] for p in pairs])
    cl = g.clients[0]
    for op, back in (("tok", "val"), ("store", "take")):
        for n, s in pairs:
            ids = [g.call(op, cl, args=[n, s] + ([5, 30] if op == "store" else [30]))]
            ids += [g.call(back, cl, args=[a, b]) for a, b in pairs if (a, b) != (n, s)]
            ids += [g.call(back, cl, args=[n, s]), g.call(back, cl, args=[n, s])]
            g.ops.append(["await"] + ids)
    return g.out()


def fault(rng, op=None, kind=None):
    """Faults at particular commands."""
    k = rng.choice(["registry", "cache", "direct"]) if op is None else \
        ("registry" if op in REGISTRY else "cache" if op in CACHE else "direct")
    if op and rng.random() < 0.3:
        k = "direct"
    g = G(rng, [("x", k)] + rng.choice([[], [("c", "cache")], [("m", "registry")]]), names=["site", "other"], strings=["s1", "s2"])
    x = g.clients[0]
    pre = {"visit": "add", "rename": "add", "remove": "add", "exists": "add", "count": "add", "take": "store", "drop": "store",
           "val": "tok", "untok": "tok"}
    for _ in range(rng.choice([1, 2, 3])):
        o = op or rng.choice({"registry": REGISTRY, "cache": CACHE, "direct": DIRECT}[k])
        a = g.args(o)
        if o in pre and rng.random() < 0.85:
            full = {"add": [a[0] if a else "site", [[3, 2]], 30], "store": a + [7, 30], "tok": a + [30]}[pre[o]]
            i = g.call(pre[o], x, args=full)
            if i:
                g.ops.append(["await", i])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f = kind or rng.choice(FAULTS)
            g.ops.append(["fault", x[0], f])
        n = rng.choice([1, 1, 2, 4])
        ids = [g.call(o, x, args=list(a))] + [g.call(client=x) for _ in range(n - 1)]
        ids = [i for i in ids if i]
        if rng.random() < 0.3 and ids:
            g.ops.append(["settle"])
            if rng.random() < 0.5:
                j = rng.choice(ids)
                ids.remove(j)
                g.ops.append(["drop", j])
        if ids:
            g.ops.append(["await"] + ids)
        if rng.random() < 0.5:        # is what was lost, lost, and what was not, not?
            i = g.call(o, x, args=list(a))
            if i:
                g.ops.append(["await", i])
        if rng.random() < 0.3:
            r = rng.choice(["kill", "down", "down"])
            g.ops.append([r])
            ids = [g.call(client=x) for _ in range(rng.choice([1, 1, 2]))] if r == "down" or rng.random() < 0.7 else []
            ids = [i for i in ids if i]
            if ids:
                g.ops.append(["await"] + ids)
            if r == "down":
                g.ops.append(["up"])
    # faults that were not used up do not count in the final round
    g.ops.append(["clear"])
    g.ops.append(["settle"])
    for c in g.clients:               # replace what is broken
        for _ in range(2):
            i = g.call(client=c)
            if i:
                g.ops.append(["await", i])
    return g.out()


def outage(rng):
    """One bad thing over and over again; then the server is well."""
    k = rng.choice(["registry", "cache", "direct"])
    g = G(rng, [("x", k)] + rng.choice([[], [("y", k)]]), names=["site", "other"], strings=["s1", "s2"])
    x = g.clients[0]
    bad = rng.choice(["down", "kill", "fault", "fault", "drop", "fine"])
    f = rng.choice(FAULTS)
    if bad == "down":
        g.ops.append(["down"])
    for n in range(rng.choice([6, 12] if bad == "drop" else [6, 12, 24, 40] + [100] * (bad != "down"))):
        i = g.call(client=x)
        if not i:
            continue
        if bad == "kill":
            g.ops.append(["kill"])
        elif bad == "fault":
            g.ops.append(["fault", "x", f if rng.random() < 0.8 else rng.choice(FAULTS)])
        if bad == "drop":
            g.ops += [["yield", rng.choice([1, 3, 20, 60])], ["drop", i]]
            if n % 4 == 3:
                g.ops.append(["settle"])
        else:
            g.ops.append(["await", i])
    g.ops += [["up"], ["clear"], ["settle"]]
    for c in g.clients:
        for _ in range(4):
            i = g.call(client=c)
            if i:
                g.ops.append(["await", i])
    return g.out()


def depart(rng):
    """Callers that stop waiting at all stages."""
    k = rng.choice(["registry", "cache"])
    g = G(rng, [("x", k)] + rng.choice([[], [("y", k)]]), names=["site", "other"], strings=["s1", "s2"])
    x = g.clients[0]
    for _ in range(rng.choice([2, 3, 5])):
        ids = []
        if rng.random() < 0.3:
            g.ops.append([rng.choice(["hold", "holdreply"])])
        if rng.random() < 0.3:
            g.ops.append(["fault", "x", rng.choice(FAULTS)])
        for _ in range(rng.choice([1, 2, 3, 5])):
            i = g.call(client=rng.choice(g.clients))
            ids.append(i)
            r = rng.random()
            if r < 0.3:
                g.ops.append(["yield", rng.choice([1, 2, 5, 20, 60, 200])])
            elif r < 0.5:
                g.ops.append(["settle"])
            elif r < 0.6:
                g.ops.append(["poll", i])
            if rng.random() < 0.5:
                j = rng.choice(ids)
                ids.remove(j)
                g.ops.append(["drop", j])
        g.ops += [["yield", rng.choice([0, 3, 30])], ["release"]]
        if ids:
            if rng.random() < 0.5:
                g.ops.append(["yield", rng.choice([1, 2, 4, 10, 40])])
                j = rng.choice(ids)
                ids.remove(j)
                g.ops.append(["drop", j])
            if ids:
                g.ops.append(["await"] + ids)
        g.ops += [["clear"], ["settle"]]
    g.ops += [["release"], ["settle"]]
    return g.out()


def connecting(rng):
    """Servers with all kinds of modules and commands, and trouble while connecting."""
    ops = []
    for k in range(rng.choice([3, 6])):
        kind = rng.choice(["registry", "cache", "direct"])
        pool = ["graph", "search", "ReJSON", "bf", "timeseries", "cache", "mcaptcha", "other_module", "captcha_cache"]
        mods = rng.sample(pool, rng.choice([0, 0, 1, 1, 2, 3, 6]))
        if rng.random() < 0.15:       # (lots of modules)
            mods += [f"mod{i}" for i in range(rng.choice([8, 16, 40, 130]))]
        if rng.random() < 0.7:
            mods.insert(rng.randint(0, len(mods)), "mcaptcha_cache")
        miss = []
        r = rng.random()
        if r < 0.35:
            miss = [rng.randrange(9)]
        elif r < 0.5:
            miss = rng.sample(range(9), rng.randint(2, 9))
        ops.append(["server", mods, miss])
        r = rng.random()
        c = f"k{k}"
        if r < 0.25:
            if rng.random() < 0.5:
                ops.append(["skip", c])
            ops.append(["fault", c, rng.choice(SETUP)])
        elif r < 0.35:
            ops += [["down"], ["connect", c, kind], ["up"]]
            c += "b"
        ops += [["connect", c, kind], ["clear"]]
    ops += [["server", ["x", "mcaptcha_cache", "y"], []], ["up"]]
    ops += [["connect", "m", "registry"], ["connect", "c", "cache"], ["connect", "d", "direct"]]
    g = G(rng, [("m", "registry"), ("c", "cache"), ("d", "direct")])
    g.ops = ops
    return g.out()


def every_module_list():
    """All lists of up to three of three modules, every single missing command."""
    from itertools import permutations
    out = []
    for kind in ("registry", "cache", "direct"):
        ops, k = [], 0
        names = ["mcaptcha_cache", "graph", "search"]
        for n in range(4):
            for p in permutations(names, n):
                ops += [["server", list(p), []], ["connect", f"k{k}", kind]]
                k += 1
        for i in range(9):
            for mods in (["mcaptcha_cache"], ["graph", "mcaptcha_cache"], ["graph"]):
                ops += [["server", mods, [i]], ["connect", f"k{k}", kind]]
                k += 1
            ops += [["server", ["mcaptcha_cache"], [j for j in range(9) if j >= i]], ["connect", f"k{k}", kind]]
            k += 1
        out.append(dict(ops=ops))
    return out


def every_fault(rng):
    """Every operation with every kind of fault."""
    return [fault(rng, o, f) for o in DIRECT for f in FAULTS]
