"""Scripts for the sites driver."""

from gen_captcha import AGES, ODD, longnames

NAMES = ["a", "b", "c", "d", "", "a:b", "ü", "a ", "A", " a", "aa", "Ü", "a\n", "b" * 400]


def levels(rng, small=False):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8])
    hi = rng.choice([6, 12, 40]) if small or rng.random() < 0.8 else 2**32 - 1
    n = min(n, hi)
    lo = rng.choice([0, 1, 1, 2])
    thr = sorted(rng.sample(range(lo, hi + lo + 1 if hi < 1000 else hi), n)) if hi > n else list(range(lo, lo + n))
    d = [rng.choice([1, 2, 5, 50, 4000])]
    for _ in range(n - 1):
        d.append(min(2**32 - 1, d[-1] + rng.choice([0, 1, 1, 10, 100, 2**31])))
    return [[t, x] for t, x in zip(thr, d)]


W = {  # add remove rename visit bulk count get dump restore wait until cset fresh
    "plain":   (2, 1, 1.5, 6, 0.7, 3, 1, 3, 0.7, 2, 3, 0.2, 0.1),
    "map":     (3, 2, 4, 5, 0.5, 1, 2, 0, 0.5, 0.7, 0.5, 0, 0.1),
    "count":   (0.6, 0.2, 0.6, 8, 1, 5, 0, 1, 0.8, 2, 7, 0.4, 0.1),
    "levels":  (0.4, 0, 0.2, 12, 2.5, 0, 0, 2.5, 0.3, 2, 7, 0.1, 0.05),
    "restore": (1, 0.5, 0.7, 5, 0.8, 3, 0.5, 2.5, 3, 1.5, 4, 0.8, 0.5),
    "gc":      (1, 0.6, 1, 5, 0.4, 1, 0.6, 2, 0.6, 4, 2, 0.1, 0.1),
}
OPS = ["add", "remove", "rename", "visit", "bulk", "count", "get", "dump", "restore", "wait", "until", "cset", "fresh"]


def script(rng, profile, nops=60, ages=False):
    """ages: times are hours, or seconds, instead of milliseconds."""
    hour = rng.choice([1, 3600])
    pool = NAMES[: rng.choice([1, 2, 3, 4])] if profile != "map" else NAMES[: rng.choice([2, 3, 4, 14])]
    r = rng.random()
    if r < 0.15:
        pool = longnames(rng)[: rng.choice([2, 3, 6])]
    elif r < 0.3 and profile != "map":
        pool = rng.sample(NAMES, rng.choice([2, 3, 4]))
    if profile in ("count", "levels"):
        pool = pool[:2]
    gcs = [1, 2, 3, 5, 10, 30] if profile == "gc" else [-1]
    gc = rng.choice(gcs)
    dpool = {"gc": [1, 1, 2, 3, 7, 20], "levels": [1, 2, 5, 30, 60]}.get(profile, [1, 2, 3, 5, 10, 30, 60, 300, 3600])
    if ages:
        dpool = [3600 * h + (rng.choice([-1, 1, 7, 59, 1801]) if hour > 1 else 0) for h in rng.sample(AGES, 5)]
        gcs = [x * 3600 for x in [24, 100, 1000]] if profile == "gc" else [-1]
        gc = rng.choice(gcs)
    elif profile in ("plain", "count", "restore") and rng.random() < 0.2:
        dpool = dpool + rng.sample(ODD, 6)
    many = rng.choice([60, 100, 1000, 10**6, 10**9])
    pow_ = rng.random() < 0.15
    ops, nd = [], 0
    pairs = profile == "map"

    def add(site=None):
        big = profile in ("restore", "plain", "count", "gc", "levels") and rng.random() < 0.3
        ops.append(["add", site or rng.choice(pool), rng.choice(dpool), levels(rng, profile == "levels"),
                    rng.choice([1, 2, 3, 7, 20, many]) if big else 0, rng.random() < 0.25])

    def dump():
        nonlocal nd
        nd += 1
        ops.append(["dump", nd])

    for s in pool:
        if rng.random() < 0.9:
            add(s)
    if pairs:
        dump()
    w = W[profile]
    while len(ops) < nops:
        k = rng.choices(OPS, weights=w)[0]
        s = rng.choice(pool)
        if k == "add":
            add(s)
        elif k == "remove":
            ops.append(["remove", s])
        elif k == "rename":
            ops.append(["rename", s, rng.choice(pool)])
        elif k == "visit":
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                ops.append(["pow" if pow_ and rng.random() < 0.5 else "visit", s])
        elif k == "bulk":
            ops.append(["bulk", s, rng.choice([2, 5, 12, 30, 60])])
        elif k in ("count", "get"):
            ops.append([k, s])
        elif k == "dump":
            dump()
        elif k == "restore" and nd:
            names = None if rng.random() < 0.7 else rng.sample(pool, rng.randint(1, len(pool)))
            ops.append(["restore", rng.choice([nd, max(1, nd - 1), rng.randint(1, nd)]), names])
        elif k == "cset" and nd:
            # (several times before the visitors it came with leave)
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
                ops.append(["cset", rng.randint(max(1, nd - 2), nd), s])
                if rng.random() < 0.3:
                    ops.append(["visit", s])
                if rng.random() < 0.3:
                    ops.append(["wait", rng.choice([1, 100, 700])])
        elif k == "fresh":
            pow_ = False
            gc = rng.choice(gcs)
            ops.append(["fresh", gc])
        elif k == "wait":
            if profile == "gc":
                t = rng.choice([100, 500, 1000, 1500, gc * 1000, gc * 1000 + 200, gc * 1000 * 2 + 500, 8000, 25000])
                if rng.random() < 0.04:   # lots of rounds
                    t = rng.choice([260, 700, 2000, 66_000]) * gc * 1000
            else:
                t = rng.choice([1, 10, 400, 999, 1001, 2500, 5000, 31000, 61000, 400_000])
            if ages:
                t = rng.choice([1, 20, 100, 700, 1300, 9000, gc // 3600 + 3]) * hour
            ops.append(["wait", t])
        elif k == "until":
            ops.append(["until", rng.choice([0, 0, 0, 1, 2, 5]), rng.choice([-5, 5, 5, -300, 300])])
        if pairs and ops[-1][0] not in ("dump", "wait", "until", "get", "count"):
            dump()
    # whatever happened: the registry still works
    ops += [["add", "z", 5 * 3600 if ages else 5, [[1, 3], [3, 9]], 0, False], ["visit", "z"], ["visit", "z"], ["count", "z"], ["dump", 1000]]
    if profile == "gc":
        ops += [["wait", 5000 + 1000 * gc + 100], ["dump", 1001], ["wait", 21000 + 1000 * gc], ["dump", 1002]] if not ages else []
    # a registry in front of which the captcha system stands is not replaced
    if any(o[0] == "fresh" for o in ops):
        pow_ = True
        ops = [["visit", o[1]] if o[0] == "pow" else o for o in ops]
    return dict(gc=gc if not any(o[0] == "fresh" for o in ops) else rng.choice(gcs),
                pow=any(o[0] == "pow" for o in ops), unit=3600_000 // hour if ages else 1, ops=ops)


def mass(rng, n):
    """Thousands of visitors at a time; all of them leave."""
    d = rng.choice([5, 60, 1000])
    lv = sorted(rng.sample([1, 10, 255, 256, 1000, 4095, 4096, n // 2, n - 1, n, n + 1, 2 * n], 4))
    ops = [["add", "a", d, [[t, 2 + k] for k, t in enumerate(lv)], 0, False], ["add", "b", d, levels_of([1, 4]), 0, False],
           ["bulk", "a", n // 2], ["visit", "b"], ["wait", 300], ["bulk", "a", n - n // 2], ["count", "a"], ["visit", "a"], ["dump", 1],
           ["wait", d * 1000 - 150], ["dump", 2], ["visit", "a"], ["count", "a"], ["wait", 250], ["dump", 3], ["count", "a"],
           ["visit", "a"], ["visit", "b"], ["wait", d * 1000 + 5], ["dump", 4], ["visit", "a"]]
    return dict(gc=-1, pow=False, ops=ops)


def crowd(rng, gc=None):
    """Lots of sites."""
    gc = rng.choice([-1, 1, 2, 5]) if gc is None else gc
    n = rng.choice([70, 130, 260, 300])
    pool = [f"{rng.choice('abcxyz')}{i:03d}" for i in range(n)]
    rng.shuffle(pool)
    ops = [["add", s, rng.choice([1, 2, 3, 1000]), [[1, 3], [3, 9]], rng.choice([0, 0, 0, 2]), False] for s in pool]
    ops.append(["dump", 1])
    some = rng.sample(pool, n // 3) if rng.random() < 0.6 else [pool[-1], max(pool), min(pool)]
    for s in some:
        ops.append(["visit", s])
    ops += [["wait", 500], ["dump", 2], ["wait", 4000 + 2000 * max(gc, 1)], ["dump", 3]]
    for s in rng.sample(pool, 10):
        ops.append(rng.choice([["remove", s], ["rename", s, "n" + s], ["visit", s], ["rename", s, rng.choice(pool)]]))
    ops += [["dump", 4]]
    if rng.random() < 0.5:
        ops += [["restore", 2, None], ["dump", 5]]
    if rng.random() < 0.5:
        ops += [["fresh", gc], ["restore", 4, None], ["dump", 6]]
    ops += [["wait", 7000 + 2000 * max(gc, 1)], ["dump", 1000]]
    return dict(gc=gc, pow=False, ops=ops)


def town(rng, n, gc):
    """Thousands of sites, next to a few others."""
    ops = [["add", s, rng.choice([1, 3, 1000]), levels(rng), 0, False] for s in "abc"]
    for s in "abca":
        ops.append(["visit", s])
    ops += [["dump", 1], ["town", n, rng.choice([2, 7, 1000]), rng.choice([0, 500, 4500]), gc > 0 and rng.random() < 0.7], ["dump", 2]]
    for s in "abc":
        ops.append(["visit", s])
    ops += [["dump", 3], ["add", "z", 5, [[1, 3], [3, 9]], 0, False], ["visit", "z"], ["wait", 9000], ["dump", 4]]
    return dict(gc=gc, pow=False, ops=ops)


def race(rng, restore=True):
    """Operations arriving while a cleanup round is running."""
    pool = ["a", "b", "c", "d"][: rng.choice([1, 1, 2, 3, 4])]
    gc = rng.choice([1, 1, 1, 2])
    ops, nv, open_ = [], 0, []

    def one():
        # one level: at the very instant a visitor leaves, either count is right
        return [[rng.choice([1, 5]), rng.randint(1, 10**6)]]

    for s in pool:
        ops.append(["add", s, rng.choice([1, 1, 2, 3]), one(), 0, False])
    for s in pool:
        if rng.random() < 0.8:
            ops.append(["visit", s])
    ops.append(["dump", 1])
    nd = 1
    for _ in range(rng.choice([2, 4, 6])):
        # let some of them go idle
        r = rng.random()
        if r < 0.75:
            ops.append(["gcwait", rng.choice([0, 0, 0, 0, 1, -1])])
        else:
            ops += [["wait", rng.choice([500, 1000, 2000]), True], ["gcwait", 0]]
        snap = rng.random() < 0.4
        if snap:
            ops += [["yield", rng.choice([0, 0, 1, 2, 3, 4, 6])], ["dcall", f"d{nd}"]]
        for _ in range(rng.choice([1, 2, 4, 6]) if not snap or rng.random() < 0.6 else 0):
            if rng.random() < 0.8:
                ops.append(["yield", rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9])])
            s = rng.choice(pool)
            k = rng.choices(["vcall", "rename", "remove", "add", "restore", "swap"], weights=(8, 2, 1, 1.5, 1.5 if restore else 0, 1))[0]
            if k == "vcall":
                nv += 1
                ops.append(["vcall", f"v{nv}", s])
                open_.append(f"v{nv}")
                if rng.random() < 0.1:
                    ops.append(["vdrop", f"v{nv}"])
                    open_.pop()
            elif k == "rename":
                ops.append(["rename", s, rng.choice(pool), True])
            elif k == "swap":
                o = rng.choice(pool)
                ops += [["rename", s, "tmp", True], ["rename", o, s, True], ["rename", "tmp", o, True]]
            elif k == "remove":
                ops.append(["remove", s, True])
            elif k == "add":
                ops.append(["add", s, rng.choice([1, 2, 3]), one(), rng.choice([0, 0, 1, 3]), False, True])
            else:
                ops.append(["restore", rng.randint(1, nd), None if rng.random() < 0.5 else [s], True])
            if len(open_) > 5:
                ops.append(["await"] + open_)
                open_ = []
        if open_:
            ops.append(["await"] + open_)
            open_ = []
        if snap:
            ops.append(["dawait", f"d{nd}"])
        ops.append(["settle"])
        nd += 1
        ops.append(["dump", nd])
        if rng.random() < 0.3:
            for s in pool:
                ops.append(["add", s, rng.choice([1, 2, 3]), one(), 0, False])
                ops.append(["visit", s])
    g = max(gc, 1)
    # rounds go on
    ops += [["settle"], ["add", "z", 1, [[1, 3], [3, 9]], 0, False], ["visit", "z"], ["dump", 1000],
            ["wait", 4000 + 2500 * g], ["dump", 1001], ["add", "z", 1, [[1, 3]], 0, False], ["visit", "z"],
            ["wait", 1500], ["wait", 1000 * g + 100], ["dump", 1002]]
    return dict(gc=gc, race=True, pow=False, ops=ops)


def from_walk(walk, gcp, names):
    """A walk of SitesSim becomes a script."""
    ops = []
    for k, n in enumerate(names):
        ops.append(["add", n, 1, [[1, 7 + k]], 1, True])
    ops.append(["dump", 1])
    for n in names:
        ops.append(["remove", n])
    ops.append(["fresh", gcp])
    nd = 1
    for o in walk:
        if o[0] == "look":
            nd += 1
            ops += [["settle"], ["dump", nd]]
        else:
            ops.append(o)
    ops += [["await"] + [o[1] for o in walk if o[0] == "vcall"], ["settle"], ["dump", nd + 1],
            ["wait", 3000 + 1000 * gcp], ["dump", nd + 2]]
    return dict(gc=gcp, race=True, pow=False, ops=ops)


def threads(rng, nt, nops):
    """Users on real threads, each with sites of its own; cleanup goes round all the time."""
    out = []
    for t in range(nt):
        pool = [f"{t}{x}" for x in "abc"]
        ops = [["add", n, 100000, [[1, rng.randint(1, 10**6)]]] for n in pool]
        while len(ops) < nops:
            s = rng.choice(pool)
            k = rng.choices(["visit", "add", "rename", "remove"], weights=(10, 1, 1.5, 0.5))[0]
            if k == "add":
                ops.append(["add", s, 100000, [[1, rng.randint(1, 10**6)], [3, 10**6 + rng.randint(1, 10)]]])
            elif k == "rename":
                ops.append(["rename", s, rng.choice(pool)])
            else:
                ops.append([k, s])
        out.append(ops)
    return dict(mode="threads", gc=rng.choice([0, 0, -1]), threads=out)


def again(rng):
    """One counter given its state over and over."""
    d = rng.choice([60, 600, 3600, 100_000])
    k = rng.choice([2, 3, 4, 7, 15, 16, 17, 127, 128, 129, 255, 256, 257, 300, 513])
    gap = rng.choice([1, 7, 13, 100])
    ops = [["add", "a", d, levels_of([1, 4, 9]), 0, False]] + [["visit", "a"]] * rng.choice([1, 3, 6]) + [["dump", 1], ["visit", "a"], ["dump", 2]]
    for n in range(k):
        ops += [["wait", gap], ["cset", rng.choice([1, 2]), "a"]]
        if rng.random() < 0.05:
            ops.append(["visit", "a"])
    left = d * 1000
    for n in range(6):
        w = rng.choice([left // 7, left // 3, gap * k // 2 + 1, 5])
        ops += [["wait", w], ["dump", 3 + n], ["count", "a"], ["visit", "a"]]
    ops += [["wait", left - gap * k // 2], ["dump", 20], ["wait", gap * k // 4 + 3], ["dump", 21], ["wait", left + 1000], ["dump", 22]]
    return dict(gc=-1, pow=False, ops=ops)


def levels_of(ts):
    return [[t, 3 * (k + 1)] for k, t in enumerate(ts)]


def halt(rng, gc=None):
    """Counters stopped from outside: what the registry still holds of them goes, and
    never gets in the way."""
    gc = rng.choice([-1, 1, 2, 5]) if gc is None else gc
    pool = ["a", "b", "c"][: rng.choice([1, 2, 3])]
    ops = [["add", s, rng.choice([1, 5, 1000]), [[1, 3], [3, 9]], rng.choice([0, 2]), False] for s in pool] + [["dump", 1]]
    halted = set()
    for _ in range(rng.choice([6, 12, 20])):
        s = rng.choice(pool)
        k = rng.choice(["visit", "visit", "halt", "halt", "add", "rename", "get", "dump", "wait", "restore", "gcwait"])
        if k in ("visit", "get"):
            ops.append([k, s])
        elif k == "halt":
            if rng.random() < 0.8:
                ops.append(["visit", s])
            ops.append(["halt", s])
        elif k == "add":
            ops.append(["add", s, rng.choice([1, 5, 1000]), [[1, 3], [3, 9]], rng.choice([0, 0, 2]), False])
        elif k == "rename":
            ops.append(["rename", s, rng.choice(pool)])
        elif k == "dump":
            ops.append(["dump", 1])
        elif k == "restore":
            ops.append(["restore", 1, rng.choice([None, [s]])])
        else:
            ops.append(["wait", rng.choice([100, 900, 2100, 3000 * max(gc, 1) + 2500, 12000])])
            if rng.random() < 0.6:
                ops += [["get", x] for x in pool]
    ops += [["wait", 3000 * max(gc, 1) + 9000]] + [["get", x] for x in pool]
    for s in pool:
        ops += [["add", s, 5, [[1, 3], [3, 9]], 0, False], ["visit", s], ["visit", s]]
    return dict(gc=gc, pow=False, ops=ops + [["dump", 2]])
