"""Scripts for the replay driver of the verification queue."""


FAMILIES = [
    ["10.0.0.1", "10.0.0.2", "::1", "", "10.0.0.1 ", "2001:db8::ffff", "a", "A", "ü", "x" * 60],
    # one address written in several ways is several addresses
    ["10.0.0.1", "10.0.0.10", "10.0.0.100", "110.0.0.1", "::ffff:10.0.0.1", "010.0.0.1", "10.0.0.1:80", " 10.0.0.1", "10.0.0.1\n", "10.0.0.01"],
    ["2001:db8::a", "2001:DB8::A", "2001:db8:0::a", "2001:db8::a%eth0", "[2001:db8::a]", "2001:db8::", "2001:db8::ab", "::", "0::", "2001:db8::a/64"],
    ["x" * 63, "x" * 64, "x" * 65, "x" * 128, "x" * 255, "x" * 256, "x" * 257, "x" * 63 + "y", "x" * 64 + "y", "y" + "x" * 63],
    ["0", "1", "-1", "00", "\0", "null", "None", "*", "unknown", "0.0.0.0"],
]


def ipname(fam, k, n):
    if fam is None:
        return f"10.{n // 65536}.{n // 256 % 256}.{n % 256}"
    pool = FAMILIES[fam]
    return pool[(k + n) % len(pool)] + ("" if n < len(pool) else f"#{n}")


class G:
    def __init__(self, rng, w, cap, nips):
        self.rng, self.w, self.cap = rng, w, cap
        off = rng.randrange(10)
        fam = rng.choice([None, 0, 0, 0, 1, 2, 3, 4])
        self.ips = [ipname(fam, off, i) for i in range(nips)]
        self.ops, self.n = [], 0

    def submit(self, ip=None, gated=None):
        self.n += 1
        ip = ip or self.rng.choice(self.ips)
        self.ops.append(["submit", self.n, ip, self.rng.random() < 0.85 if gated is None else gated])
        return self.n

    def out(self):
        return dict(w=self.w, cap=self.cap, ops=self.ops)


def seq(rng, n, nips=None, burst=1):
    """Mostly one thing at a time: every decision of the queue is seen."""
    g = G(rng, rng.choice([1, 1, 1, 2, 3, 4]), rng.choice([0, 1, 1, 2, 2, 3, 4, 10]), nips or rng.choice([1, 2, 3, 4, 5, 6]))
    heavy = rng.choice(g.ips)     # one address floods
    bias = rng.choice([0.35, 0.5, 0.65])
    for _ in range(n):
        if rng.random() < bias:
            for _ in range(rng.randint(1, burst)):
                j = g.submit(heavy if rng.random() < 0.4 else None)
                if rng.random() < 0.12:
                    if rng.random() < 0.5:
                        g.ops.append(["settle"])
                    g.ops.append(["abandon", j])
        else:
            for _ in range(rng.randint(1, burst)):
                g.ops.append(["release", rng.randrange(8)])
        g.ops.append(["settle"])
        if rng.random() < 0.02:       # calm down completely
            for _ in range(12):
                g.ops += [["release", 0], ["settle"]]
    return g.out()


def burst(rng, n):
    return seq(rng, n, rng.choice([2, 3, 4]), rng.choice([2, 3, 4]))


def overload(rng):
    """Fill the queue up to its bound, get refused, drain it, and again."""
    w, cap = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5])
    g = G(rng, w, cap, cap + 3)
    for _ in range(rng.choice([2, 3])):
        for _ in range(w + cap * rng.choice([1, 2]) + 4):
            g.submit(gated=True)
            g.ops.append(["settle"])
        for _ in range(rng.choice([3, w + cap * 2 + 5])):
            g.ops += [["release", rng.randrange(w)], ["settle"]]
    return g.out()


def many(rng, kind=None):
    """Many addresses, or many jobs of one, with large bounds: served from a known state."""
    w = rng.choice([1, 1, 1, 2])
    kind = kind or rng.choice(["wide", "wide", "deep", "long"])
    if kind == "staff":               # lots of workers
        w = rng.choice([5, 8, 9, 16, 17, 20, 32, 33, 65, 100])
        cap = rng.choice([2, 10, 150])
        g = G(rng, w, cap, rng.choice([3, w + 4]))
        for k in range(w + 4):
            g.submit(g.ips[k % len(g.ips)], gated=True)
            g.ops.append(["settle"])
        g.ops.append(["settle"])
        for _ in range(rng.choice([4, w + 4])):
            g.ops += [["release", rng.randrange(w)], ["settle"]]
            if rng.random() < 0.3:
                g.submit(gated=True)
                g.ops.append(["settle"])
        return g.out()
    if kind == "wide":                # many addresses, up to the bound
        cap = rng.choice([12, 20, 33, 50, 64, 65, 100, 128, 130])
        g = G(rng, w, cap, cap + 4)
        order = list(g.ips)
        rng.shuffle(order)
        for ip in order[:w]:
            g.submit(ip, gated=True)
            g.ops.append(["settle"])
        for ip in order[w:]:
            g.submit(ip, gated=True)
            if rng.random() < 0.15:
                g.submit(rng.choice(order[:10]), gated=True)
        g.ops.append(["settle"])
        for _ in range(2):            # refused, whoever asks
            g.submit(rng.choice(order), gated=True)
        g.ops.append(["settle"])
        for _ in range(rng.choice([5, 30, cap + 10])):
            g.ops += [["release", 0], ["settle"]]
            if rng.random() < 0.2:
                g.submit(gated=True)
                g.ops.append(["settle"])
    elif kind == "deep":              # many jobs of few addresses
        cap = rng.choice([3, 5, 10])
        g = G(rng, w, cap, rng.choice([2, 3]))
        n = rng.choice([20, 40, 70])
        for _ in range(w):
            g.submit(gated=True)
        g.ops.append(["settle"])
        heavy = rng.choice(g.ips)
        at = rng.randrange(n)
        for k in range(n):
            g.submit(heavy, gated=True)
            if k % 8 == 7:
                g.ops.append(["settle"])
            if k == at:
                for ip in g.ips:
                    g.submit(ip, gated=True)
        g.ops.append(["settle"])
        for _ in range(n):
            g.ops += [["release", 0], ["settle"]]
            if rng.random() < 0.05:
                g.submit(gated=True)
                g.ops.append(["settle"])
    else:                             # a long history
        cap = rng.choice([2, 3, 4])
        g = G(rng, 1, cap, rng.choice([3, 4, 5]))
        g.submit(gated=True)
        g.ops.append(["settle"])
        for _ in range(rng.choice([130, 270])):
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                g.submit(gated=True)
                g.ops.append(["settle"])
            g.ops += [["release", 0], ["settle"]]
    return g.out()


def ending(rng):
    """The queue is dropped in the middle of things."""
    if rng.random() < 0.05:           # with lots of addresses waiting
        n = rng.choice([20, 40, 70, 140])
        g = G(rng, rng.choice([1, 2, 4, 10, 30]), n, n + 5)
        for ip in g.ips[:rng.choice([n // 2, n, n + 5])]:
            g.submit(ip, gated=True)
            if g.n < 6 or g.n % 4 == 0:
                g.ops.append(["settle"])
        if rng.random() < 0.6:
            g.ops.append(["settle"])
    else:
        g = G(rng, rng.choice([1, 1, 2, 3, 4]), rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4]))
    for _ in range(rng.choice([0, 1, 2, 5, 9])):
        j = g.submit()
        r = rng.random()
        if r < 0.5:
            g.ops.append(["settle"])
        elif r < 0.65:
            g.ops.append(["abandon", j])
        if rng.random() < 0.2:
            g.ops.append(["release", rng.randrange(4)])
    if rng.random() < 0.5:
        g.ops.append(["settle"])
    elif rng.random() < 0.3:
        g.ops.append(["release", 0])
    g.ops.append(["drop"])
    if rng.random() < 0.7:
        g.ops.append(["settle"])
    for _ in range(rng.randint(0, 5)):
        g.ops.append(["release", rng.randrange(4)])
        if rng.random() < 0.7:
            g.ops.append(["settle"])
    return g.out()


def threads(rng):
    """Several submitters at once, workers held up; then one job after the other."""
    w, cap = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 8])
    g = G(rng, w, cap, rng.choice([2, 3, 4]))
    for _ in range(rng.choice([2, 3, 4])):
        for _ in range(w):
            if rng.random() < 0.8:
                g.submit(gated=True)
        g.ops.append(["settle"])
        nt = rng.choice([2, 2, 3])
        own = rng.random() < 0.5
        for t in range(nt):
            js = []
            for _ in range(rng.randint(1, 3)):
                g.n += 1
                js.append([g.n, g.ips[t % len(g.ips)] if own else rng.choice(g.ips), True])
            g.ops.append(["go", t + 1, js])
        g.ops.append(["settle"])
        for _ in range(rng.choice([2, 9])):
            g.ops += [["release", rng.randrange(3)], ["settle"]]
    return g.out()


def bulk(rng, q, long=False):
    """Many threads, many jobs: how often is each run? Then the queue is looked at at rest."""
    cap = rng.choice([0, 1, 2, 3, 10, 1000])
    g = G(rng, rng.choice([1, 2, 4, 8, 24]), cap, 3)
    n = rng.choice([100, 400, 1000]) * (1 if q else 5)
    if long:                          # more jobs than a small number can count
        n, cap = 70000, 1000
    g.ops.append(["bulk", rng.choice([1, 2] if long else [1, 2, 4, 8]), n, rng.choice([1, 2, 3, 5, 20]), 0 if long else rng.choice([0, 0, 30, 300]),
                  rng.choice([0, 5, 30]), rng.randint(1, 10**6)])
    for _ in range(8):
        g.submit(gated=True)
        g.ops.append(["settle"])
    for _ in range(10):
        g.ops += [["release", 0], ["settle"]]
    return g.out()


def from_walk(walk, w, cap):
    return dict(w=w, cap=cap, ops=walk)


def annotate(pairs):
    """Tells with each submission how often the queue will have been seen at rest when the job starts."""
    for _, evs in pairs:
        seg, at, res = 0, {}, {}
        for e in evs:
            if e["e"] == "settled":
                seg += 1
                e["n"] = seg
            elif e["e"] == "start":
                at.setdefault(e["id"], seg)
                res.setdefault(e["id"], "ok")
            elif e["e"] == "ret":
                res[e["id"]] = e["res"]
        for e in evs:
            if e["e"] == "submit":
                e["seg"] = at.get(e["id"], -1)
                if res.get(e["id"]) in ("ok", "full"):
                    e["res"] = res[e["id"]]
    return pairs
