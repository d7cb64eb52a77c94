"""What each property's check does."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import start_build, end_build, model_check, prove, simulate, replay, validate, report
import gen_captcha as gc

CHECKS = {}


def check(*props):
    def reg(f):
        for p in props:
            CHECKS[p] = f
        return f
    return reg


def judge_known(run):
    """Violations listed in known-findings.json become KNOWN-FINDING lines."""
    path = os.path.join(vlib.VERIF, "known-findings.json")
    known = [k for k in json.load(open(path))["findings"] if k["property"] == run.prop] if os.path.exists(path) else []
    left = []
    for v in run.violations:
        hit = next((k for k in known if k["match"] in v[1]), None)
        if hit:
            line = f"KNOWN-FINDING: property={run.prop} {hit['what']}"
            if line not in run.known:
                run.known.append(line)
        else:
            left.append(v)
    run.violations = left


def parallel(*fs):
    """Runs the thunks at the same time; the first error wins."""
    with ThreadPoolExecutor(len(fs)) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


# --------------------------------------------------------------------------- captcha (C01-C04, C19)

CAPTCHA_PROPS = {"C01", "C02", "C03", "C04", "C08", "C19"}


def captcha_model(nc, nv, nx, maxt, drops, bug="none"):
    return dict(Sites={"a", "b"}, Dur="<- MCDur", NC=nc, NV=nv, NX=nx, MaxT=maxt, Drops=drops, Bug=bug,
                Enforce="<- MCEnforce")


CAPTCHA_NEG = {  # a design mistake each property must notice: bug, model size
    "C01": [("peek", (1, 2, 0, 1, False))],
    "C02": [("anykey", (1, 1, 0, 1, False))],
    "C03": [("tokpeek", (1, 1, 2, 1, False)), ("anytok", (1, 1, 1, 1, False))],
    "C04": [("expireall", (2, 1, 0, 3, False)), ("tokdur", (1, 1, 1, 3, False))],
    "C19": [("peek", (1, 2, 0, 1, True))],
}
CAPTCHA_QUICK = {
    "C01": [(1, 2, 0, 2, True)],
    "C02": [(1, 2, 0, 2, True)],
    "C03": [(1, 1, 2, 2, False), (1, 1, 1, 2, True)],
    "C04": [(1, 1, 1, 3, True), (2, 1, 0, 2, False)],
    "C19": [(1, 2, 0, 2, True), (1, 1, 1, 2, True)],
}
CAPTCHA_PROFILES = {
    "C01": ["conc", "conc", "seq", "work"],
    "C02": ["work", "work", "seq", "conc"],
    "C03": ["tok", "tok", "conc", "seq"],
    "C04": ["time", "time", "time", "seq"],
    "C19": ["abandon"],
}


@check("C01", "C02", "C03", "C04", "C19")
def captcha(run):
    p, rng, q = run.prop, run.rng, run.quick
    b = start_build("captcha")
    thunks = [lambda a=a: model_check(run, "CaptchaMC", captcha_model(*a), ("Conforms", "Timed"), label=str(a))
              for a in CAPTCHA_QUICK[p]]
    thunks += [lambda n=n: model_check(run, "CaptchaMC", captcha_model(*n[1], bug=n[0]), ("Conforms",),
                                       expect="Conforms", label=n[0], workers=2) for n in CAPTCHA_NEG[p]]
    walks = []
    nw = 40 if q else 1500
    sim = dict(Sites={"a", "b"}, Dur="<- SimDur", NC=4, NV=6, NX=5, MaxT=6, Bug="none", Enforce=set())
    thunks.append(lambda: walks.extend(simulate(run, "CaptchaSim", dict(sim, Drops=(p == "C19")), nw, 70, run.seed)))
    if not q:
        thunks += [lambda a=a: model_check(run, "CaptchaMC", captcha_model(*a), ("Conforms", "Timed"), label=str(a),
                                           workers=8, timeout=3000, heap="12g")
                   for a in [(1, 2, 2, 3, False), (2, 2, 0, 2, False), (1, 1, 2, 3, True), (1, 2, 1, 2, True)]]
        thunks.append(lambda: model_check(run, "CaptchaMC", captcha_model(1, 2, 0, 1, True), ("Conforms",), ("Returns",),
                                          label="liveness", timeout=3000))
    if q:
        parallel(*thunks)
    else:
        for t in thunks:
            t()
    end_build(b)

    n = 160 if q else 4000
    prof = CAPTCHA_PROFILES[p]
    scripts = [gc.script(rng, prof[i % len(prof)], rng.choice([30, 60, 90])) for i in range(n)]
    scripts += [gc.from_walk(w, rng) for w in walks]
    scripts += [gc.full_queue(rng)]
    if p in ("C03", "C04"):
        scripts += [gc.script(rng, "time", rng.choice([30, 60]), ages=True) for _ in range((60 if p == "C04" else 20) if q else 1500)]
        scripts += [gc.lives(rng) for _ in range(12 if q else 300)]
        scripts += [gc.staggered(rng) for _ in range((120 if p == "C04" else 40) if q else 3000)]
    if p in ("C01", "C02", "C19"):
        scripts += [gc.stalled(rng) for _ in range((60 if p == "C19" else 20) if q else 1000)]
    if p in ("C01", "C02", "C03", "C04"):
        fl = [(4200, 4200, False), (1200, 1100, True)] if q else \
             [(4500, 4500, False), (70000, 5000, False), (5000, 2000, True), (20000, 20000, True)]
        scripts = [gc.flood(rng, *a) for a in fl] + scripts
    if p == "C02":
        scripts = [gc.edge(rng) for _ in range(20 if q else 120)] + [gc.hard(rng) for _ in range(6)] + scripts
        if not q:
            scripts += [gc.hard(rng, 2**20) for _ in range(60)]
    if p == "C01":
        scripts = [gc.mint(150000, 10)] * (1 if q else 10) + scripts
    if p == "C03":
        scripts.append(gc.mint(10, 50000 if q else 500000))
    enforce = {"C01", "C02", "C03", "C04", "C08", "C19"} if p == "C19" else {p}
    pairs = replay(run, "captcha", scripts, shards=4)
    report(run, validate(run, "Captcha", pairs, enforce, "calls in virtual time"), "virtual")
    if p in ("C01", "C02", "C03"):
        races = [gc.race(rng, 60 if q else 600, t) for t in (2, 3, 4, 8)]
        pairs = replay(run, "captcha", races, shards=1, timeout=800)
        report(run, validate(run, "Captcha", pairs, enforce, "racing threads"), "race")


# --------------------------------------------------------------------------- sites (C05, C06, C08-C11)

import gen_defense as gd
import gen_sites as gs

SITES_INV = ("Conforms", "Balanced", "GcAlive")


def sites_model(names="a", lv="L1", dur=(1,), gcp=0, nc=3, nv=2, nops=2, maxt=3, kinds=("add",), strict=False, bug="none"):
    return dict(Names=set(names), Levels="<- " + lv, Dur=set(dur), GcP=gcp, NC=nc, NV=nv, NOps=nops, MaxT=maxt,
                Kinds=set(kinds), Strict=strict, Bug=bug, Enforce="<- MCEnforce")


def m(**kw):
    return kw


SITES_QUICK = {
    "C05": [m(nv=2, nc=3, kinds=("add", "restore"), lv="L3", strict=True, dur=(1, 2))],
    "C06": [m(nv=5, nops=1, nc=2, maxt=2, kinds=("add", "restore"), lv="L4", strict=True)],
    "C08": [m(names="ab", nv=1, nops=3, maxt=1, kinds=("add", "remove", "rename"))],
    "C09": [m(gcp=1, nc=2, kinds=("add", "rename", "remove")), m(names="ab", gcp=1, nv=1, nops=3, maxt=2, kinds=("add", "rename"))],
    "C10": [m(gcp=2, maxt=5, kinds=("add", "remove"))],
    "C11": [m(gcp=1, maxt=3, kinds=("add", "restore")), m(nv=2, kinds=("add", "restore"), lv="L2", strict=True)],
}
SITES_DEEP = {
    "C05": [m(nv=3, kinds=("add", "restore"), lv="L3", strict=True, dur=(1, 2)), m(names="ab", nv=3, nops=3, nc=4, kinds=("add", "rename"), maxt=2)],
    "C06": [m(nv=5, nops=2, nc=3, maxt=3, kinds=("add", "restore"), lv="L4", strict=True)],
    "C08": [m(names="ab", nv=2, nops=3, maxt=1, kinds=("add", "remove", "rename")), m(names="abc", nv=1, nops=3, nc=3, maxt=1, kinds=("add", "remove", "rename"))],
    "C09": [m(names="ab", gcp=1, nv=2, nops=2, kinds=("add", "rename")), m(gcp=1, nv=3, nops=3, maxt=3, kinds=("add", "rename", "restore"))],
    "C10": [m(gcp=1, nv=2, nops=3, maxt=4, kinds=("add", "remove", "rename")), m(gcp=2, nv=2, nops=3, maxt=6, kinds=("add", "restore"))],
    "C11": [m(gcp=1, maxt=4, kinds=("add", "restore")), m(nv=3, nops=3, nc=4, kinds=("add", "restore"), lv="L2", strict=True)],
}
SITES_NEG = {
    "C05": [("norestoretimer", m(nv=1, nops=1, kinds=("restore",), lv="L2", strict=True)),
            ("stale", m(lv="L2", strict=True, kinds=("add", "restore")))],
    "C06": [("oscill", m(nv=4, nops=1, lv="L4", strict=True))],
    "C08": [("addkeep", m(nv=1, dur=(1, 2)))],
    "C09": [("countstop", m(gcp=1, nops=1)), ("byname", m(gcp=1, nv=1, maxt=2)), ("unmarked", m(gcp=1, nv=1, nops=1)),
            ("renamemark", m(names="ab", gcp=1, nv=1, kinds=("add", "rename")))],
    "C10": [("gcdies", m(gcp=1, nv=1, kinds=("add", "remove")))],
    "C11": [("inplace", m(gcp=1, kinds=("add", "restore"))), ("stale", m(lv="L2", strict=True, kinds=("add", "restore")))],
}
#           families: generator profile -> number of scripts (quick)
SITES_FAM = {
    "C05": {"count": 90, "restore": 40, "plain": 40, "again": 12},
    "C06": {"levels": 150, "plain": 30},
    "C08": {"map": 110, "plain": 40, "crowd": 4, "halt": 30},
    "C09": {"race": 260, "gc": 80, "crowd": 4, "halt": 30},
    "C10": {"gc": 150, "race": 120, "crowd": 6, "halt": 80},
    "C11": {"restore": 130, "race": 160, "crowd": 4, "again": 12, "halt": 30},
}


@check("C05", "C06", "C08", "C09", "C10", "C11")
def sites(run):
    p, rng, q = run.prop, run.rng, run.quick
    b = start_build("sites", *(["defense"] if p in ("C05", "C06") else []))
    thunks = [lambda a=a: model_check(run, "SitesMC", sites_model(**a), SITES_INV, label=str(a)) for a in SITES_QUICK[p]]
    thunks += [lambda n=n: model_check(run, "SitesMC", sites_model(bug=n[0], **n[1]), ("Conforms", "GcAlive"), expect="x",
                                       label=n[0], workers=2) for n in SITES_NEG[p]]
    if p == "C10":
        a = m(gcp=1, nv=1, nc=2, kinds=("add", "remove"))
        thunks.append(lambda: model_check(run, "SitesMC", sites_model(**a), ("Conforms",), ("Served", "Rounds"), label="liveness"))
        thunks.append(lambda: model_check(run, "SitesMC", sites_model(bug="gcdies", **a), (), ("Rounds",), expect="x",
                                          label="gcdies, liveness", workers=2))
    walks = []
    gcps = {"C09": [1, 2], "C10": [1, 2], "C11": [1, -1]}.get(p, [-1])

    def walk(g):
        c = dict(Names={"a", "b"}, Levels="<- L1", Dur={1, 2}, GcP=max(g, 0), NC=12, NV=10, NOps=10, MaxT=8,
                 Kinds={"add", "rename", "remove", "restore"}, Strict=False, Bug="none", Enforce=set())
        for w in simulate(run, "SitesSim", c, 25 if q else 1000, 90, run.seed * 10 + g):
            walks.append(gs.from_walk(w, g, ["a", "b"]))
    thunks += [lambda g=g: walk(g) for g in gcps]
    if not q:
        thunks += [lambda a=a: model_check(run, "SitesMC", sites_model(**a), SITES_INV, label=str(a), workers=8,
                                           timeout=3000, heap="14g") for a in SITES_DEEP[p]]
        if p == "C06":
            thunks.append(lambda: prove(run, "LevelProof"))
        for t in thunks:
            t()
    else:
        parallel(*thunks)
    end_build(b)

    # the operations of walks come at the very instant at which visitors leave: what depends on
    # the count then is left to the other families
    enforce = {p}
    for fam, n in SITES_FAM[p].items():
        n = n if q else n * 30
        scripts = [getattr(gs, fam)(rng) if fam in ("race", "again", "halt") else gs.crowd(rng, -1 if p == "C08" else rng.choice([1, 2, 5])) if fam == "crowd"
                   else gs.script(rng, fam, rng.choice([40, 70, 100])) for _ in range(n)]
        if fam in ("plain", "restore", "count") or p == "C10" and fam == "gc":
            scripts += [gs.script(rng, fam, 40, ages=True) for _ in range(n // 6)]
        pairs = replay(run, "sites", scripts, shards=4)
        report(run, validate(run, "Sites", pairs, enforce, fam), fam)
    if p in ("C08", "C09", "C10", "C11"):
        scripts = [gs.town(rng, n, g) for n in ([1100, 4200] if q else [1100, 4200, 4200, 9000, 33000])
                   for g in ([-1] if p == "C08" else [2, 5] if p in ("C09", "C10") else [-1, 5])]
        pairs = replay(run, "sites", scripts, shards=4 if q else 8, timeout=800)
        report(run, validate(run, "Sites", pairs, enforce, "town"), "town")
    if p in ("C05", "C06"):
        scripts = [gs.mass(rng, n) for n in ([4500, 5500, 9000] if q else [4500] * 6 + [9000] * 6 + [33000] * 3)]
        pairs = replay(run, "sites", scripts, shards=3 if q else 8, timeout=800)
        report(run, validate(run, "Sites", pairs, enforce, "mass"), "mass")
    pairs = replay(run, "sites", walks, shards=4)
    report(run, validate(run, "Sites", pairs, enforce, "model walks"), "walk")
    if p in ("C05", "C06"):
        # the configuration of one site, used directly
        pairs = replay(run, "defense", [gd.site(rng) for _ in range(80 if q else 4000)], shards=4)
        report(run, validate(run, "Defense", pairs, enforce, "one site"), "site")
    if p in ("C05", "C08", "C09"):
        pairs = replay(run, "sites", [gs.threads(rng, t, 150 if q else 2000) for t in (1, 2, 4, 8)], shards=1)
        report(run, validate(run, "Sites", pairs, enforce, "racing threads"), "threads")


# --------------------------------------------------------------------------- queue (C12-C15)

import gen_queue as gq


def queue_model(ips="ab", nj=3, w=1, cap=1, ths="t", drops=False, ends=False, bug="none"):
    return dict(IPs=set(ips), NJ=nj, W=w, Cap=cap, Ths=set(ths), Drops=drops, Ends=ends, Bug=bug, Enforce="<- MCEnforce")


QUEUE_QUICK = {
    "C12": [m(w=2, drops=True), m(nj=4, cap=2)],
    "C13": [m(ips="abc", cap=2, ths="tu"), m(nj=4, cap=2)],
    "C14": [m(nj=4, cap=1), m(ips="abc", cap=2, ths="tu"), m(ips="abc", w=2, cap=1)],
    "C15": [m(w=2, drops=True, ends=True), m(nj=4, cap=2, ends=True)],
}
QUEUE_DEEP = {
    "C12": [m(nj=4, w=2, drops=True), m(ips="abc", nj=5, cap=2), m(ips="abc", nj=4, w=3, cap=2)],
    "C13": [m(ips="abc", nj=5, cap=3), m(ips="abc", nj=4, w=2, cap=2), m(ips="ab", nj=5, w=2, cap=2)],
    "C14": [m(ips="abc", nj=5, cap=2), m(ips="abc", nj=4, w=2, cap=1), m(ips="abc", nj=4, cap=2, ths="tu")],
    "C15": [m(nj=4, w=2, cap=2, drops=True, ends=True), m(nj=3, w=3, cap=2, ends=True)],
}
QUEUE_NEG = {
    "C12": [("nobusy", m()), ("busyleak", m(nj=2)), ("abandonpanic", m(nj=2, drops=True))],
    "C13": [("lifo", m(ips="a", cap=2)), ("noturn", m(nj=4, cap=2))],
    "C14": [("ringkeep", m(cap=2)), ("fullown", m(nj=4)), ("offbyone", m(ips="abc"))],
    "C15": [("drain", m(nj=2, ends=True))],
}
QUEUE_FAM = {
    "C12": {"seq": 70, "burst": 50, "threads": 40, "bulk": 30, "many": 8, "staff": 12},
    "C13": {"seq": 120, "burst": 100, "threads": 80, "many": 24, "staff": 8},
    "C14": {"overload": 70, "seq": 60, "burst": 60, "threads": 40, "bulk": 16, "many": 24, "staff": 8},
    "C15": {"ending": 500, "bulk": 10},
}


@check("C12", "C13", "C14", "C15")
def queue(run):
    p, rng, q = run.prop, run.rng, run.quick
    b = start_build("queue", *(["captcha"] if p == "C12" else []))
    thunks = [lambda a=a: model_check(run, "QueueMC", queue_model(**a), label=str(a)) for a in QUEUE_QUICK[p]]
    thunks += [lambda n=n: model_check(run, "QueueMC", queue_model(bug=n[0], **n[1]), expect="x", label=n[0], workers=2)
               for n in QUEUE_NEG[p]]
    if p == "C12":
        thunks.append(lambda: model_check(run, "QueueMC", queue_model(cap=2, ends=True), ("Conforms",), ("Runs",),
                                          spec="FairSpec", label="liveness"))
    if p == "C15":
        thunks.append(lambda: model_check(run, "QueueMC", queue_model(cap=2, ends=True), ("Conforms",), ("Ended",),
                                          spec="FairSpec", label="liveness"))
        thunks.append(lambda: model_check(run, "QueueMC", queue_model(nj=2, w=2, cap=2, ends=True, bug="nostop"), (), ("Ended",),
                                          spec="FairSpec", expect="x", label="nostop", workers=2))
    walks = []

    def walk(w, cap):
        c = dict(IPs=set("abc"), NJ=9, W=w, Cap=cap, Ths={"t"}, Drops=p in ("C12", "C15"), Ends=p == "C15", Bug="none", Enforce=set())
        walks.extend(gq.from_walk(x, w, cap) for x in simulate(run, "QueueSim", c, 12 if q else 400, 80, run.seed * 10 + w))
    thunks += [lambda a=a: walk(*a) for a in ((1, 1), (1, 2), (2, 2))]
    if not q:
        thunks += [lambda a=a: model_check(run, "QueueMC", queue_model(**a), label=str(a), workers=8, timeout=3000, heap="14g")
                   for a in QUEUE_DEEP[p]]
        for t in thunks:
            t()
    else:
        parallel(*thunks)
    end_build(b)

    for fam, n in QUEUE_FAM[p].items():
        n = n if q else n * 30
        f = {"seq": lambda: gq.seq(rng, rng.choice([30, 50])), "burst": lambda: gq.burst(rng, rng.choice([15, 25])),
             "overload": lambda: gq.overload(rng), "threads": lambda: gq.threads(rng), "ending": lambda: gq.ending(rng),
             "bulk": lambda: gq.bulk(rng, q), "many": lambda: gq.many(rng), "staff": lambda: gq.many(rng, "staff")}[fam]
        scripts = [f() for _ in range(n)]
        if fam == "bulk":
            scripts += [gq.bulk(rng, q, long=True) for _ in range(2 if q else 40)]
        pairs = gq.annotate(replay(run, "queue", scripts, shards=4))
        report(run, validate(run, "Queue", pairs, {p}, fam), fam)
    pairs = gq.annotate(replay(run, "queue", walks, shards=4))
    report(run, validate(run, "Queue", pairs, {p}, "model walks"), "walk")
    if p == "C12":
        # through System::verify_pow, with works that are rejected or abandoned
        scripts = [gc.stalled(rng) for _ in range(60 if q else 2000)]
        scripts += [gc.script(rng, prof, 60) for prof in ("abandon", "work") for _ in range(20 if q else 900)]
        pairs = replay(run, "captcha", scripts, shards=4)
        report(run, validate(run, "Captcha", pairs, {"C12"}, "verify_pow"), "verify_pow")


# --------------------------------------------------------------------------- configurations (C07)



@check("C07")
def defense(run):
    rng, q = run.rng, run.quick
    b = start_build("defense")
    mc = lambda vs, ds, nl, bug="none": dict(Vs=set(vs), Ds=set(ds), NL=nl, Bug=bug, Enforce="<- MCEnforce")
    three = (0, 1, 2)
    inv = ("Conforms", "InRange")
    thunks = [lambda: model_check(run, "DefenseMC", mc(three, three, 3), inv, label="3 levels"),
              lambda: model_check(run, "DefenseMC", mc((0, 1, 2, 3), (0, 1, 2), 4), inv, label="4 levels")]
    thunks += [lambda n=n: model_check(run, "DefenseMC", mc(three, three, 3, n), ("Conforms",), expect="x", label=n, workers=2)
               for n in ("lastdup", "keepdup", "nosort", "strict", "shortcheck", "zerook", "vasd", "wrap", "tobottom", "serdereset")]
    walks, cover = [], {}

    def edges():
        vs = three if q else (0, 1, 2, 3)
        c = dict(mc(vs, three, 3 if q else 4), Enforce=set())
        g, inits = vlib.edge_cover(run, "DefenseMC", c)
        ws, total, left = vlib.cover_walks(g, inits, rng)
        cover.update(model_edges=total, edges_not_replayed=left, walks=len(ws))
        walks.extend(gd.walks(ws, rng, vs, three))
    thunks.append(edges)
    if not q:
        thunks.append(lambda: model_check(run, "DefenseMC", mc((0, 1, 2, 3, 4), (0, 1, 2, 3), 4), inv, label="deep", workers=8, timeout=3000))
        for t in thunks:
            t()
    else:
        parallel(*thunks)
    end_build(b)
    run.coverage["edge_coverage"] = cover

    pairs = replay(run, "defense", walks, shards=4)
    report(run, validate(run, "Defense", pairs, {"C07"}, "every edge of the model"), "edges")
    scripts = [gd.script(rng, rng.choice([20, 40, 80])) for _ in range(400 if q else 20000)]
    pairs = replay(run, "defense", scripts, shards=4)
    report(run, validate(run, "Defense", pairs, {"C07"}, "random configurations"), "random")
    pairs = replay(run, "defense", [gd.large(rng) for _ in range(40 if q else 2000)], shards=4)
    report(run, validate(run, "Defense", pairs, {"C07"}, "many levels"), "large")


# --------------------------------------------------------------------------- Redis (C16-C18, C20)

import gen_redis as gr


def redis_model(clients="m", ops=("add", "visit"), names="N1", ni=2, nf=0, faults=(), kills=0, maxt=0, mods="OneMod",
                miss="NoMiss", gones=False, bug="none"):
    return dict(Clients=set(clients), Kind="<- MCKind", Ops=set(ops), Names="<- " + names, NI=ni, NF=nf, Faults=set(faults),
                Kills=kills, MaxT=maxt, Dur=2, Mods="<- " + mods, Miss="<- " + miss, Gones=gones, Bug=bug, Enforce="<- MCEnforce")


RF = ("error", "closebefore", "closeafter", "late", "garbage")
REGISTRY = ("add", "visit", "rename", "remove", "exists", "count")
CHAL, TOK = ("store", "take"), ("tok", "val")
REDIS_QUICK = {
    "C16": [m(clients="c", ops=CHAL, ni=3, maxt=3), m(clients="c", ops=TOK, ni=3, maxt=3), m(clients="c", ops=TOK, ni=3, names="N3"),
            m(clients="cd", ops=CHAL, ni=3, names="N2")],
    "C17": [m(ni=3, ops=REGISTRY, names="N2", gones=True), m(clients=("m", "m2"), ni=3, ops=("visit", "rename", "add"))],
    "C18": [m(ni=3, nf=2, faults=RF, kills=1, gones=True, ops=("add", "visit", "count")),
            m(clients="c", ops=CHAL, ni=3, nf=1, faults=RF, kills=1, gones=True), m(clients="c", ops=TOK, ni=3, nf=1, faults=RF, gones=True)],
    "C20": [m(mods="AllMods", miss="AllMiss", nf=1, clients=("m", "c"), ops=())],
}
REDIS_DEEP = {
    "C16": [m(clients="cd", ops=CHAL + TOK, ni=4), m(clients="cd", ops=TOK, ni=3, maxt=3, names="N3"), m(clients="c", ops=CHAL, ni=4, maxt=4, names="N2")],
    "C17": [m(ni=4, ops=REGISTRY, names="N2"), m(clients=("m", "m2"), ni=4, ops=("visit", "rename", "add"), gones=True)],
    "C18": [m(ni=4, nf=2, faults=RF, kills=1, gones=True, ops=("add", "visit")), m(clients="c", ops=CHAL + TOK, ni=3, nf=2, faults=RF, kills=2, gones=True),
            m(clients="cd", ops=CHAL, ni=3, nf=2, faults=RF, kills=1, gones=True)],
    "C20": [],
}
REDIS_NEG = {
    "C16": [("joinkey", m(clients="c", ops=TOK, names="N3")), ("peek", m(clients="c", ops=CHAL, ni=3)),
            ("noexp", m(clients="c", ops=CHAL, maxt=3))],
    "C17": [("unordered", m()), ("swap", m()), ("invert", m(ops=("exists",))), ("retry", m(nf=1, faults=RF))],
    "C18": [("crash", m(ni=3, gones=True)), ("panic", m(ni=3, nf=1, faults=RF)), ("swallow", m(nf=1, faults=RF)), ("stuck", m(ni=3, kills=1))],
    "C20": [("first", m(mods="AllMods", ops=())), ("nocheck", m(miss="AllMiss", ops=()))],
}
REDIS_FAM = {
    "C16": {"cache": 160, "lasting": 120, "collide": 60, "product": 12, "fault": 40},
    "C17": {"relay": 200, "collide": 10, "fault": 60, "depart": 60},
    "C18": {"fault": 300, "every": 2, "depart": 220, "outage": 60, "connecting": 60},
    "C20": {"connecting": 260, "lists": 1},
}


@check("C16", "C17", "C18", "C20")
def redis(run):
    p, rng, q = run.prop, run.rng, run.quick
    b = start_build("redis", *(["captcha"] if p in ("C16", "C18") else []))
    thunks = [lambda a=a: model_check(run, "RedisMC", redis_model(**a), label=str(a)) for a in REDIS_QUICK[p]]
    thunks += [lambda n=n: model_check(run, "RedisMC", redis_model(bug=n[0], **n[1]), expect="x", label=n[0], workers=2)
               for n in REDIS_NEG[p]]
    if p == "C18":
        a = m(clients="c", ops=("tok", "val"), ni=2, nf=1, faults=("closeafter", "garbage"), kills=1, gones=True)
        thunks.append(lambda: model_check(run, "RedisMC", redis_model(**a), ("Conforms",), ("Served",), spec="FairSpec", label="liveness"))
        thunks.append(lambda: model_check(run, "RedisMC", redis_model(bug="wedge", **a), (), ("Served",), spec="FairSpec",
                                          expect="x", label="wedge", workers=2))
    if not q:
        thunks += [lambda a=a: model_check(run, "RedisMC", redis_model(**a), label=str(a), workers=8, timeout=3000, heap="14g")
                   for a in REDIS_DEEP[p]]
        for t in thunks:
            t()
    else:
        parallel(*thunks)
    end_build(b)

    gen = {"relay": gr.relay, "cache": gr.cache, "lasting": gr.lasting, "collide": gr.collide, "product": gr.product, "fault": gr.fault, "outage": gr.outage, "depart": gr.depart, "connecting": gr.connecting}
    for fam, n in REDIS_FAM[p].items():
        n = n if q else n * 30
        if fam == "lists":
            scripts = gr.every_module_list()
        elif fam == "every":
            scripts = [s for _ in range(n) for s in gr.every_fault(rng)]
        else:
            scripts = [gen[fam](rng) for _ in range(n)]
        pairs = replay(run, "redis", scripts, shards=4)
        report(run, validate(run, "Redis", pairs, {p}, fam), fam)
    if p in ("C16", "C18"):
        # end to end: the same observer as with the in-memory cache, enforced as a whole
        profs = ["seq", "tok", "time", "conc", "work"] if p == "C16" else ["abandon"]
        n = 120 if q else 4000
        # (Redis takes no longer durations)
        scripts = [dict(gc.script(rng, profs[i % len(profs)], rng.choice([30, 60, 90]), longest=10**12), backend=["redis", "redis", "mixed2", "mixed"][i % 4])
                   for i in range(n)]
        if p == "C18":
            scripts += [gc.rough(rng, ["redis", "redis", "mixed2", "mixed"][i % 4]) for i in range(160 if q else 5000)]
        pairs = replay(run, "captcha", scripts, shards=4)
        enforce = {"C01", "C02", "C03", "C04"} | ({"C18", "C19"} if p == "C18" else set())
        report(run, validate(run, "Captcha", pairs, enforce, "the system on Redis"), "system")
