"""Scripts for the replay driver of the configuration builders."""
import re

U32 = 2**32 - 1
EDGE = [0, 1, 2, 3, 255, 256, 65535, 65536, 65537, 2**31 - 1, 2**31, U32 - 1, U32]


def num(rng, small=False):
    r = rng.random()
    if small or r < 0.35:
        return rng.randint(0, 6)
    return rng.choice(EDGE) if r < 0.7 else rng.randint(0, U32)


def walks(ws, rng, vs, ds):
    """Paths through the state graph of DefenseImpl; its small numbers stand for others of the same order."""
    out = []
    for w in ws:
        vm = dict(zip(sorted(vs), sorted(rng.sample(EDGE if rng.random() < 0.6 else range(U32), len(vs)))))
        dm = dict(zip(sorted(ds), [0] + sorted(rng.sample(EDGE[1:], len(ds) - 1))))
        ops = [["db_new", "b"]]
        for a in w:
            m = re.match(r"Add\((\d+),(\d+)\)", a)
            if m:
                ops.append(["db_add", "b", vm[int(m.group(1))], dm[int(m.group(2))], rng.random() < 0.7])
            elif a == "Build":
                ops.append(["db_build", "b", "f"])
            else:
                ops.append(["df", "f", ["up", "down", "max", "min", "serde"][int(a[5:-1]) - 1]])
        out.append(dict(ops=ops))
    return out


def script(rng, n):
    ops, k = [], 0
    lbs, dbs, dfs, mbs = [], [], [], []
    mono = rng.random() < 0.7       # mostly sound configurations
    small = rng.random() < 0.4
    pairs = sorted({num(rng, False) for _ in range(12)}), sorted(max(1, num(rng, False)) for _ in range(12))
    while len(ops) < n:
        r = rng.random()
        k += 1
        if r < 0.22:
            if not lbs or rng.random() < 0.3:
                lbs.append(f"l{k}")
                ops.append(["lb_new", lbs[-1]])
            b = rng.choice(lbs)
            for _ in range(rng.randint(0, 3)):
                ops.append(rng.choice([["lb_v", b, num(rng)], ["lb_d", b, num(rng)], ["lb_d", b, 0]]))
            ops.append(["lb_build", b])
        elif r < 0.62 or not dfs:
            if not dbs or rng.random() < 0.25:
                dbs.append(f"b{k}")
                ops.append(["db_new", dbs[-1]])
            b = dbs[-1] if rng.random() < 0.8 else rng.choice(dbs)
            idx = list(range(min(len(pairs[0]), len(pairs[1]))))
            rng.shuffle(idx)
            for i in idx[:rng.choice([0, 1, 2, 3, 5, 9])]:
                v, d = (pairs[0][i], pairs[1][i]) if mono else (num(rng, small), num(rng, small))
                if rng.random() < 0.04:
                    d = 0
                ops.append(["db_add", b, v, d, rng.random() < 0.7])
            if rng.random() < 0.85:
                f = f"f{k}" if rng.random() < 0.7 or not dfs else rng.choice(dfs)
                ops.append(["db_build", b, f])
                dfs.append(f)
        elif r < 0.85:
            f = rng.choice(dfs)
            way = rng.choice([["up"], ["down"], ["up", "up", "down"], ["up", "down", "max", "min", "serde"]])
            for _ in range(rng.randint(1, 14)):
                ops.append(["df", f, rng.choice(way)])
        else:
            if not mbs or rng.random() < 0.5:
                mbs.append(f"m{k}")
                ops.append(["mb_new", mbs[-1]])
            b = rng.choice(mbs)
            if rng.random() < 0.7:
                ops.append(["mb_def", b, rng.choice(dfs)])
            if rng.random() < 0.7:
                ops.append(["mb_dur", b, str(rng.choice([0, 1, 30, 86400, 2**32, 2**63, 2**64 - 1, rng.randint(1, 2**64 - 1)]))])
            ops.append(["mb_build", b])
    return dict(ops=ops)


def large(rng):
    """Many levels; a defect, if any, is a small one somewhere."""
    n = rng.choice([10, 17, 20, 32, 33, 64, 65, 70] * 3 + [100, 129, 257])
    top = rng.choice([n * 3, 1000, U32 - 1, U32]) if n < 100 else rng.choice([n * 3, U32])
    vs = sorted(rng.sample(range(max(top, n) + 1), n))
    if rng.random() < 0.5:
        ds = sorted(rng.randint(1, rng.choice([3, n, U32])) for _ in range(n))
    else:
        d, ds = rng.randint(1, 5), []
        for _ in range(n):
            ds.append(d)
            d += rng.choice([0, 1, 1, 7])
    ls = [list(x) for x in zip(vs, ds)]
    r = rng.random()
    i = rng.choice([0, 1, n // 2, n - 2, n - 1, rng.randrange(n)])
    if r < 0.25:                      # one factor smaller than one before it, possibly by one, possibly far before
        j = rng.choice([i - 1, i - 1, rng.randrange(n)])
        i, j = max(i, j), min(i, j)
        if i != j and ls[j][1] > 1:
            ls[i][1] = ls[j][1] - 1
    elif r < 0.35:
        ls[i][1] = 0
    how = rng.random()
    if how < 0.5:
        rng.shuffle(ls)
    elif how < 0.7:
        ls.reverse()
    elif how < 0.85:
        ls = ls[n // 2:] + ls[:n // 2]
    ops = [["db_new", "b"]]
    for k, (v, d) in enumerate(ls):
        ops.append(["db_add", "b", v, d, rng.random() < 0.7])
        if rng.random() < 0.05:       # once more one of those before
            w = rng.choice(ls[:k + 1])
            ops.append(["db_add", "b", w[0], rng.choice([w[1], max(ds)]), True])
    ops.append(["db_build", "b", "f"])
    steps = ["up"] * (n + 2) if n < 40 else ["max", "up", "up", "down", "up", "up"]
    if rng.random() < 0.5:
        steps += ["down"] * rng.randint(1, 10) + ["serde", "up", "min", "down", "up", "max"]
    ops += [["df", "f", s] for s in steps]
    ops += [["mb_new", "m"], ["mb_def", "m", "f"], ["mb_dur", "m", "30"], ["mb_build", "m"]]
    return dict(ops=ops)


def site(rng):
    """One site, its visits and departures."""
    n = rng.choice([1, 2, 3, 4, 5, 8, 12, 30, 70])
    style = rng.choice(["dense", "dense", "sparse", "huge"])
    if style == "dense":
        v = sorted(rng.sample(range(rng.choice([n, n + 2, 2 * n + 3])), n))
    elif style == "sparse":
        v = sorted(rng.sample(range(20 * n), n))
    else:
        v = sorted(rng.sample([x + d for x in (10, 255, 256, 65535, 65536, 10**6, 2**24, 10**9 - 5, 2**31 - 20, 2**31, U32 - 30) for d in range(-9, 10)], n))
    d, ds = rng.randint(1, 5), []
    for _ in range(n):
        ds.append(d)
        d += rng.choice([0, 1, 1, 7, 1000])
    ls = list(zip(v, ds))
    rng.shuffle(ls)
    ops = [["db_new", "b"]] + [["db_add", "b", a, b, True] for a, b in ls] + [["db_build", "b", "f"]]
    if rng.random() < 0.3:
        ops.append(["df", "f", rng.choice(["up", "max"])])
    ops += [["mb_new", "m"], ["mb_def", "m", "f"], ["mb_dur", "m", str(rng.choice([1, 30, 2**64 - 1]))], ["mc_new", "s", "m"]]
    top = max(v)
    for _ in range(rng.choice([5, 15, 30])):
        r = rng.random()
        if r < 0.45:
            ops.append(["mc", "s", "visit", rng.choice([1, 1, 2, 3, 5, n + 1])])
        elif r < 0.8:
            ops.append(["mc", "s", "dec", rng.choice([0, 1, 1, 1, 2, 3, n, top // 2, U32])])
        elif r < 0.87:
            ops.append(["mc", "s", "serde", 0])
        else:                         # somewhere around a threshold, at some level
            x = rng.choice(v)
            ops.append(["mc_set", "s", max(0, min(2 * 10**9, x + rng.choice([-3, -2, -1, 0, 0, 1, 2]))), rng.choice([rng.randrange(n), max(0, v.index(x) + rng.choice([-1, 0, 1]))])])
            ops.append(["mc", "s", "visit", rng.choice([1, 2, 4, 8])])
    return dict(ops=ops)
