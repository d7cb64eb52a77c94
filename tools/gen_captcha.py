"""Scripts for the captcha driver."""
import random

BAD = ["low", "near", "forged", "forgedthr", "pad", "plus", "lead0", "space", "trunc", "nonce", "garbage",
       "empty", "neg", "other", "salt", "nosalt", "zero", "last"]


def levels(rng, big=False):
    n = rng.choice([1, 2, 3, 4])
    thr = sorted(rng.sample(range(1, 14), n))
    dmax = rng.choice([3, 10, 60, 400, 1500])
    dif = sorted(rng.randint(1, dmax) for _ in range(n))
    if big:
        dif[-1] = rng.choice([2**31, 2**32 - 1, 3_000_000_000])
    return [[t, d] for t, d in zip(thr, dif)]


NAMES = ["a", "A", "b", "a ", " a", "", "ä", "Ä", "a:b", "aa", "a\n", "x" * 300]
SALTS = ["s", "asdfasdfasdf", "", "salt with spaces", "ü", " s ", "s\n", "S", "\0s", "'\"\\", "x" * 5000]
# lifetimes in hours
AGES = [1, 2, 24, 49, 170, 720, 1193, 1194, 2400, 5000, 8760, 8784, 9500, 9500]
LENGTHS = [8, 15, 16, 31, 32, 40, 63, 64, 100, 127, 128, 255, 256, 1000, 4096]


def longnames(rng):
    """Names that differ at one end, or in the middle, only."""
    x = "".join(rng.choice("abcxyz") for _ in range(rng.choice(LENGTHS) + rng.choice([-1, 0, 0, 1])))
    return rng.choice([[x + c for c in "abcdef"], [c + x for c in "abcdef"], [x, x + "a", x + "b", "b" + x, x + "aa", x[:-1]],
                       [x + c + x for c in "abcdef"]])
ALIKE = ["case", "lower", "pre", "post", "nul", "cut", "more", "first", "glob", "rev"]
# lifetimes (s) that don't fit into something once they are ms, us or ns
ODD = sorted({x + d for n in (15, 16, 31, 32, 53, 63, 64) for k in (0, 3, 6, 9) for x in [-(-2**n // 10**k)]
              for d in (-1, 0, 1, 2) if 60 < x + d < 2**64})


def like(rng, name):
    """A name that isn't that one."""
    x = rng.choice(["a", "b", "c", "", name[:-1] + "#", "#" + name[1:], name[:len(name) // 2], name + " ", " " + name, name.upper(), name.lower(), name.swapcase(), name.strip(),
                    name + "x", name[:-1], name * 2, "*"] + NAMES)
    return x if x != name else name + "?"


def script(rng, profile, nops=60, longest=2**64 - 1, ages=False):
    """ages: times are hours, or seconds, instead of milliseconds."""
    hour = rng.choice([1, 3600])
    r = rng.random()
    sites = (["a", "b", "c"] if r < 0.5 else rng.sample(NAMES, 3) if r < 0.8 else longnames(rng))[: rng.choice([1, 2, 3])]
    durs = {}
    ops = []
    dpool = {"time": [1, 2, 3, 7, 30, 59, 61, 300, 3600, 7200, 86400],
             }.get(profile, [5, 30, 60, 300, 3600])
    if ages:
        dpool = [3600 * h + (rng.choice([-1, 1, 7, 59, 1801]) if hour > 1 else 0) for h in rng.sample(AGES, 4)]
    elif profile == "time" and rng.random() < 0.25:
        dpool = dpool + [d for d in rng.sample(ODD, 8) if d <= longest]
    for s in sites:
        durs[s] = rng.choice(dpool)
        ops.append(["addsite", s, durs[s], levels(rng, big=(profile == "work" and rng.random() < 0.15))])
    nI = nV = nX = 0
    open_, issues, verifs, site_of, used = [], [], [], {}, set()
    conc = {"seq": 0.0, "time": 0.25, "work": 0.1, "conc": 0.8, "abandon": 0.8, "tok": 0.5}[profile]
    pdrop = 0.5 if profile == "abandon" else 0.0

    def go(id_):
        """what happens to a call after its start"""
        if rng.random() < conc:
            open_.append(id_)
        else:
            ops.append(["await", id_])

    def ready(id_):
        if id_ in open_ and rng.random() < 0.85:
            ops.append(["await", id_])
            open_.remove(id_)

    def issue():
        nonlocal nI
        nI += 1
        i = f"i{nI}"
        st = rng.choice(sites + (["zz"] if rng.random() < 0.05 else []))
        ops.append(["issue", i, st])
        site_of[i] = st
        if st != "zz":
            issues.append(i)
        go(i)

    def verify(i=None, kind=None, key=None):
        nonlocal nV
        if not issues:
            return issue()
        nV += 1
        v = f"v{nV}"
        if i is None:
            fresh = [x for x in issues if x not in used]
            if fresh and rng.random() < 0.75:
                i = rng.choice(fresh)
            elif rng.random() < {"work": 0.75, "tok": 0.8}.get(profile, 0.4):
                return issue()
            else:
                i = issues[-1] if rng.random() < 0.6 else rng.choice(issues)
        used.add(i)
        ready(i)
        if rng.random() < 0.03:
            i = rng.choice(["nosuchstring", "", "x" * 32] + [v for v, _ in verifs if v not in open_])
        elif rng.random() < 0.05:
            i += "^" + rng.choice(ALIKE)
        if kind is None:
            pg = {"work": 0.4, "tok": 0.95}.get(profile, 0.7)
            kind = "good" if rng.random() < pg else rng.choice(BAD)
        if key is None:
            right = site_of.get(i.partition("^")[0], sites[0])
            key = right if rng.random() < 0.88 else like(rng, right)
        ops.append(["verify", v, i, key, kind, f"ip{rng.randint(0, 5)}", rng.choice(issues)])
        verifs.append((v, site_of.get(i.partition("^")[0], sites[0])))
        go(v)
        return v

    def validate():
        nonlocal nX
        if not verifs:
            return verify()
        nX += 1
        x = f"x{nX}"
        fresh = [y for y in verifs if y[0] not in used]
        if fresh and rng.random() < 0.7:
            v, right = rng.choice(fresh)
        else:
            v, right = verifs[-1] if rng.random() < 0.6 else rng.choice(verifs)
        used.add(v)
        ready(v)
        if rng.random() < 0.06:
            v = rng.choice(["guess", "", rng.choice(issues) if issues else "guess"])
        elif rng.random() < 0.06:
            v += "^" + rng.choice(ALIKE)
        key = right if rng.random() < 0.8 else like(rng, right)
        ops.append(["validate", x, v, key])
        go(x)

    w = {"seq": (3, 3, 3, 1), "time": (3, 2, 2, 3), "work": (2, 6, 1, 0.3), "conc": (3, 5, 3, 0.7),
         "abandon": (3, 4, 3, 0.7), "tok": (2, 3, 6, 0.5)}[profile]
    while len(ops) < nops:
        r = rng.random()
        if open_ and r < 0.55:
            x = rng.choice(open_)
            r = rng.random()
            if r < pdrop * 0.5:
                if rng.random() < 0.5:
                    ops.append(["settle"])
                ops.append(["drop", x])
                open_.remove(x)
            elif r < 0.75:
                ops.append(["poll", x])
            else:
                ops.append(["await", x])
                open_.remove(x)
            if rng.random() < 0.4:
                ops.append(["yield", rng.choice([1, 1, 2, 3, 8])])
            continue
        k = rng.choices("ivxw", weights=w)[0]
        if k == "i":
            issue()
        elif k == "v":
            # several submitters of one challenge
            if rng.random() < 0.3 and issues:
                i = rng.choice(issues[-3:])
                for _ in range(rng.choice([2, 2, 3])):
                    verify(i)
            else:
                verify()
        elif k == "x":
            if rng.random() < 0.3:
                for _ in range(2):
                    validate()
            else:
                validate()
        else:
            r = rng.random()
            if profile == "time" and r < 0.75 and (issues or verifs):
                ref = rng.choice((issues + [v for v, _ in verifs])[-6:])
                ops.append(["until", ref, rng.choice([-5, 5, 5, -5, -400, 400, -1000, 1000])])
            elif r < 0.9:
                ops.append(["wait", rng.choice([x * hour for x in [10, 20, 400, 2000]] if ages else [10, 400, 999, 1000, 1500, 4000, 29000, 60500, 3600_000])])
            elif profile in ("time", "conc"):
                # reconfigure while challenges are outstanding, with no challenge request in flight
                for x in [y for y in open_ if y[0] == "i"]:
                    ops.append(["await", x])
                    open_.remove(x)
                s = rng.choice(sites)
                ops.append(["addsite", s, rng.choice(dpool), levels(rng)])
    for x in open_:
        ops.append(["await", x])
    # a plain round at the end: everything still works
    if profile == "abandon":
        for s in sites:
            nI += 1
            nV += 1
            nX += 1
            ops += [["settle"], ["addsite", s, 300, [[50, 5], [100, 10]]], ["issue", f"i{nI}", s], ["await", f"i{nI}"],
                    ["verify", f"v{nV}", f"i{nI}", s, "good", "ipz", f"i{nI}"], ["await", f"v{nV}"],
                    ["validate", f"x{nX}", f"v{nV}", s], ["await", f"x{nX}"]]
    return dict(salt=rng.choice(SALTS), runners=rng.choice([1, 1, 2, 4]),
                qlen=1000, unit=3600_000 // hour if ages else 1, ops=ops)


def from_walk(walk, rng):
    """A walk of CaptchaSim becomes a script: sites with the durations of the model."""
    ops = [["addsite", "a", 1, levels(rng)], ["addsite", "b", 2, levels(rng)]]
    calls = [o[1] for o in walk if o[0] in ("issue", "verify", "validate")]
    dropped = {o[1] for o in walk if o[0] == "drop"}
    ops += walk
    ops += [["await", c] for c in calls if c not in dropped]
    return dict(salt="s", runners=rng.choice([1, 2]), qlen=100, ops=ops)


def flood(rng, nc, nt, late=False):
    """Challenges and tokens stay good however many others are issued meanwhile, and
    come to their end all the same. (The others live for 50,000 s.)"""
    ops = [["addsite", "a", 5000, [[5, 2], [10, 4]]]]
    for n in range(1, 7):
        ops += [["issue", f"i{n}", "a"], ["await", f"i{n}"]]
    for n in range(1, 4):
        ops += [["verify", f"v{n}", f"i{n}", "a", "good", "ip", f"i{n}"], ["await", f"v{n}"]]
    ops += [["wait", 1000], ["flood", nc, nt, 60_000_000 if late else 1000], ["wait", 1000]]
    for n in range(4, 7):
        ops += [["verify", f"v{n}", f"i{n}", "a", "good", "ip", f"i{n}"], ["await", f"v{n}"]]
    for n in range(1, 7):
        ops += [["validate", f"x{n}", f"v{n}", "a"], ["await", f"x{n}"]]
    return dict(salt="s", runners=2, qlen=100, ops=ops)


def edge(rng, n=6):
    """Works that miss or make it by a hair."""
    ops = []
    for k in range(1, n + 1):
        d = rng.choice([1, 1, 1, 2, 3, 10, 100, 255, 256, 500, 999, 1000, 1001, 1024, rng.randint(2, 1400), rng.randint(1001, 1400)])
        ops += [["addsite", f"s{k}", 5000, [[5, d], [10, d]]], ["issue", f"i{k}", f"s{k}"], ["await", f"i{k}"],
                ["verify", f"v{k}", f"i{k}", f"s{k}", rng.choice(["below", "below", "above", "zero", "last"]), "ip", f"i{k}"], ["await", f"v{k}"]]
    return dict(salt=rng.choice(SALTS), runners=1, qlen=100, ops=ops)


def lives(rng):
    """Each site's challenges and tokens, of a long life: good to the end, and no longer."""
    hs = sorted(rng.sample([x for x in AGES if x > 40], 4))
    hour = rng.choice([1, 3600])
    odd = rng.choice([-1, 1, 7, 59, 1801]) if hour > 1 else 0
    ops, n = [["addsite", f"s{h}", 3600 * h + odd, [[5, 2], [10, 4]]] for h in hs], 0
    for h in hs:
        for k in range(3):
            n += 1
            ops += [["issue", f"i{n}", f"s{h}"], ["await", f"i{n}"]]
            if k:
                ops += [["verify", f"v{n}", f"i{n}", f"s{h}", "good", "ip", f"i{n}"], ["await", f"v{n}"]]
    n = 0
    for h in hs:
        ops.append(["until", f"i{n + 1}", -5])
        if rng.random() < 0.5:
            ops += [["verify", f"v{n + 1}", f"i{n + 1}", f"s{h}", "good", "ip", f"i{n + 1}"], ["await", f"v{n + 1}"]]
        ops += [["validate", f"x{n + 2}", f"v{n + 2}", f"s{h}"], ["await", f"x{n + 2}"], ["until", f"i{n + 1}", 5],
                ["verify", f"w{n + 1}", f"i{n + 1}", f"s{h}", "good", "ip", f"i{n + 1}"], ["await", f"w{n + 1}"],
                ["validate", f"x{n + 3}", f"v{n + 3}", f"s{h}"], ["await", f"x{n + 3}"]]
        n += 3
    return dict(salt="s", runners=1, qlen=100, unit=3600_000 // hour, ops=ops)


def staggered(rng):
    """Challenges and tokens of few sites, one after the other, used late or not at all."""
    ages = rng.random() < 0.15
    unit = 3600 if ages else 1
    durs = [rng.choice([49, 720, 1193] if ages else [2, 5, 30, 60, 300, 3600]) * unit]
    durs += [rng.choice([durs[0], durs[0] * 2, durs[0] + unit]) for _ in range(rng.choice([0, 0, 1, 2]))]
    life = [d if not ages else d // 3600 for d in durs]
    life = [x * 1000 if not ages else x for x in life]
    todo = []
    for n in range(1, rng.choice([5, 10, 16])):
        k = rng.randrange(len(durs))
        D = life[k]
        t = rng.randrange(max(1, D))
        todo.append((t, [["issue", f"i{n}", f"s{k}"], ["await", f"i{n}"]]))
        late = [D // 2, D - rng.choice([6, 9, D // 50 + 6]), D + rng.choice([6, 9, D // 50 + 6]), rng.randrange(max(1, 2 * D))]
        r = rng.random()
        if r < 0.2:
            continue
        u = t if rng.random() < 0.5 else t + rng.choice(late)
        todo.append((u + 0.5, [["verify", f"v{n}", f"i{n}", f"s{k}", "good" if rng.random() < 0.9 else "garbage", "ip", f"i{n}"], ["await", f"v{n}"]]))
        if r < 0.4:
            continue
        w = u + rng.choice(late)
        todo.append((w, [["validate", f"x{n}", f"v{n}", f"s{k}"], ["await", f"x{n}"]]))
    todo.sort(key=lambda x: x[0])
    ops = [["addsite", f"s{k}", d, levels(rng)] for k, d in enumerate(durs)]
    now = 0
    for t, what in todo:
        if int(t) > now:
            ops.append(["wait", int(t) - now])
            now = int(t)
        ops += what
    return dict(salt="s", runners=1, qlen=100, unit=3600_000 if ages else 1, ops=ops)


def hard(rng, top=300_000):
    """Works that are hard to come by, or half as hard."""
    ops = []
    for k in range(1, 3):
        d = rng.choice([rng.randint(2000, top), rng.randint(top // 2, top), 65535, 65536, 65537, 32768, 100_000, 131_072])
        ops += [["addsite", f"s{k}", 50000, [[5, d], [10, d]]], ["issue", f"i{k}", f"s{k}"], ["await", f"i{k}"],
                ["verify", f"v{k}", f"i{k}", f"s{k}", "half" if k == 1 or rng.random() < 0.6 else "grind", "ip", f"i{k}"], ["await", f"v{k}"]]
    return dict(salt=rng.choice(["s", ""]), runners=1, qlen=100, ops=ops)


def full_queue(rng):
    """Verification with a queue that can be full (bound 0): the work is turned away."""
    ops = [["addsite", "a", 300, [[5, 2], [10, 4]]]]
    for n in range(1, 6):
        ops += [["issue", f"i{n}", "a"], ["await", f"i{n}"],
                ["verify", f"v{2*n}", f"i{n}", "a", "good", "ip", f"i{n}"], ["await", f"v{2*n}"],
                ["verify", f"v{2*n+1}", f"i{n}", "a", "good", "ip", f"i{n}"], ["await", f"v{2*n+1}"]]
    return dict(salt="s", runners=1, qlen=0, mayfull=True, ops=ops)


def race(rng, rounds, threads):
    return dict(mode="race", threads=threads, rounds=rounds, seed=rng.randint(1, 2**31), salt="s",
                runners=rng.choice([1, 2, 4]), qlen=1000, levels=levels(rng)[:3])


def mint(n, tokens):
    return dict(salt="s", runners=1, qlen=10, ops=[["addsite", "a", 10, [[5, 2], [10, 4]]], ["mint", n, tokens, "a"]])


def stalled(rng):
    """Callers that are slow to take their verdicts, on few runners."""
    ops = [["addsite", "a", 3600, [[5, rng.choice([2, 20])], [10, 40]]]]
    n = i = 0
    for _ in range(rng.choice([2, 3, 4])):
        held = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            i += 1
            n += 1
            kind = rng.choice(["good", "good", "empty", "garbage", "neg", "trunc", "pad", "low", "forged", "near"])
            ops += [["issue", f"i{i}", "a"], ["await", f"i{i}"],
                    ["verify", f"v{n}", f"i{i}", "a", kind, f"ip{rng.randint(0, 2)}", f"i{i}"]]
            held.append(f"v{n}")
            for _ in range(rng.randint(0, 4)):
                ops += [["settle"], ["poll", f"v{n}"]]
        rng.shuffle(held)
        for v in held:
            r = rng.random()
            if r < 0.25:
                ops.append(["drop", v])
            else:
                ops.append(["await", v])
    return dict(salt="s", runners=rng.choice([1, 1, 2]), qlen=1000, ops=ops)


FAULTS = ["error", "closebefore", "closeafter", "partial", "late", "wrongtype", "junk", "garbage"]


def rough(rng, backend):
    """The server misbehaves under the whole system: calls may fail, but what is
    reported done has been done, and afterwards everything works again."""
    sites = ["a", "b"][: rng.choice([1, 2])]
    ops = [["addsite", s, 90000, [[5, rng.choice([2, 9])], [10, 40]]] for s in sites]
    nI = nV = nX = 0
    issues, verifs = [], []
    clients = {"redis": ["m", "c"], "mixed": ["m"]}.get(backend, ["c"])

    def issue():
        nonlocal nI
        nI += 1
        issues.append((f"i{nI}", rng.choice(sites)))
        ops.append(["issue", f"i{nI}", issues[-1][1]])
        return f"i{nI}"

    def verify(i):
        nonlocal nV
        nV += 1
        kind = "good" if rng.random() < 0.9 else rng.choice(["garbage", "nonce", "other"])
        ops.append(["verify", f"v{nV}", i[0], i[1], kind, "ip", i[0]])
        verifs.append((f"v{nV}", i[1]))
        return f"v{nV}"

    def validate(v):
        nonlocal nX
        nX += 1
        ops.append(["validate", f"x{nX}", v[0], v[1]])
        return f"x{nX}"

    def awaited(f, *a):
        ops.append(["await", f(*a)])

    for _ in range(rng.choice([1, 2, 3])):
        fresh = []
        for _ in range(rng.choice([2, 4, 6])):
            awaited(issue)
            fresh.append(issues[-1])
        rng.shuffle(fresh)
        early = []
        for _ in range(rng.choice([0, 1, 2])):
            i = fresh.pop()
            awaited(verify, i)
            early.append(verifs[-1])
        r = rng.random()
        if r < 0.1:
            ops.append(["rough", ["", 0, "kill"]])
        elif r < 0.2:
            ops.append(["rough", ["", 0, "down"]])
        else:
            ops.append(["rough"] + [[rng.choice(clients), rng.choice([0, 0, 1, 1, 2, 3]), rng.choice(FAULTS)]
                                    for _ in range(rng.choice([1, 1, 1, 2, 4]))])
        ids = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.choice("ivvvx")
            if k == "v" and fresh:
                ids.append(verify(fresh.pop() if rng.random() < 0.8 else rng.choice(fresh)))
            elif k == "x" and early:
                ids.append(validate(rng.choice(early)))
            else:
                ids.append(issue())
            if rng.random() < 0.5:
                ops.append(["awaitr", ids[-1]])
                if rng.random() < 0.3 and ids[-1][0] == "v":
                    ids.append(validate(verifs[-1]))
        ops += [["awaitr"] + ids, ["calm"]]
        for i in rng.sample(issues, len(issues)):
            if rng.random() < 0.5:
                awaited(verify, i)
        for v in rng.sample(verifs, len(verifs)):
            if rng.random() < 0.7:
                awaited(validate, v)
        awaited(issue)
        awaited(verify, issues[-1])
        awaited(validate, verifs[-1])
    return dict(salt="s", runners=rng.choice([1, 2]), qlen=1000, backend=backend, ops=ops)
