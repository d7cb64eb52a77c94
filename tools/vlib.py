"""Common machinery of the checks: build the replay drivers from /repo's working tree,
run TLC on the design models, generate scripts, replay them, validate traces with TLC."""
import json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Run:
    """State of one check run: scratch directory, counters for the evidence file."""

    def __init__(self, prop, tier=TIER, seed=SEED):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "work", f"{prop}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.replay = os.path.join(VERIF, "work", "replay", prop)
        self.n = 0
        self.models, self.neg, self.conf = [], [], []
        self.states = self.transitions = self.traces = self.events = 0
        self.coverage = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.rng = random.Random(f"{prop}/{seed}")

    def tmp(self, name):
        self.n += 1
        return os.path.join(self.dir, f"{self.n:03d}-{name}")

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ----------------------------------------------------------------------------- build

def start_build(*bins):
    """Compiles the drivers (and with them the code under test) in the background."""
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg libmcaptcha_verif --cap-lints allow"
    env["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    env["CARGO_TERM_COLOR"] = "never"
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    return subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def end_build(p):
    out, _ = p.communicate()
    if p.returncode != 0:
        raise ToolError("building the drivers failed:\n" + out[-4000:])


def driver(name):
    return os.path.join(HARNESS, "target", "debug", name)


# ----------------------------------------------------------------------------- TLC

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v[1:] if v.startswith("=") else json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise TypeError(v)


def write_cfg(path, spec, consts, invariants=(), properties=(), extra=()):
    with open(path, "w") as f:
        f.write(f"SPECIFICATION {spec}\n")
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                if isinstance(v, str) and v.startswith("<-"):
                    f.write(f"  {k} {v}\n")
                else:
                    f.write(f"  {k} = {tla(v)}\n")
        for i in invariants:
            f.write(f"INVARIANT {i}\n")
        for p in properties:
            f.write(f"PROPERTY {p}\n")
        for e in extra:
            f.write(e + "\n")
        f.write("CHECK_DEADLOCK FALSE\n")


def java_tlc(args, env=None, timeout=800, heap="4g", gc="Parallel"):
    cmd = ["java", f"-XX:+Use{gc}GC", f"-Xmx{heap}", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE"] + args
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC ran over {timeout}s: {' '.join(args)}") from x
    return p.returncode, p.stdout


RE_STATES = re.compile(r"(\d+) states generated.*?(\d+) distinct states found", re.S)
RE_DEPTH = re.compile(r"depth of the complete state graph search is (\d+)")


def model_check(run, module, consts, invariants=("Conforms",), properties=(), spec="Spec", workers=3,
                expect=None, label="", timeout=800, heap="6g"):
    """Exhaustive check of a design model. expect=None: must hold; expect='Inv': a negative control,
    must be violated."""
    cfg = run.tmp(f"{module}.cfg")
    write_cfg(cfg, spec, consts, invariants, properties)
    meta = cfg + ".meta"
    t = time.time()
    rc, out = java_tlc(["-workers", str(workers), "-metadir", meta, "-config", cfg, module], timeout=timeout, heap=heap)
    shutil.rmtree(meta, ignore_errors=True)
    m = RE_STATES.search(out[out.rfind("states generated") - 40:]) or RE_STATES.search(out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    d = RE_DEPTH.search(out)
    info = dict(module=module, label=label, constants={k: str(v) for k, v in consts.items()},
                invariants=list(invariants), properties=list(properties), states=dist, transitions=gen,
                depth=int(d.group(1)) if d else None, wall_s=round(time.time() - t, 1))
    violated = re.search(r"(is|was|were) violated", out)
    if expect is None:
        if "No error has been found" not in out:
            raise ToolError(f"design model {module} {label} does not satisfy its properties "
                            f"(the model must be corrected):\n" + out[-3000:])
        run.models.append(info)
        run.states += dist
        run.transitions += gen
    else:
        if not violated:
            raise ToolError(f"negative control {module} {label} was not noticed:\n" + out[-3000:])
        run.neg.append(dict(module=module, label=label, noticed=True, states=dist))
    return info


def prove(run, module, timeout=800):
    """TLAPS checks the proofs of a module, in a scratch copy."""
    d = run.tmp("proof_" + module)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(SPEC, module + ".tla"), d)
    r = subprocess.run(["tlapm", "--threads", "4", "--stretch", "4", module + ".tla"], cwd=d, capture_output=True, text=True, timeout=timeout)
    m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
    if not m:
        raise ToolError(f"proof of {module}: " + (r.stdout + r.stderr)[-1500:])
    run.coverage.setdefault("proofs", []).append(dict(module=module, obligations_proved_by_tlaps=int(m.group(1))))


def simulate(run, module, consts, num, depth, seed, workers=4, spec="SimSpec", invariants=("Emit",), timeout=300):
    """Random walks of a model, returned as lists of script entries."""
    cfg = run.tmp(f"{module}.cfg")
    c = dict(consts)
    c["Depth"] = depth
    write_cfg(cfg, spec, c, invariants)
    meta = cfg + ".meta"
    rc, out = java_tlc(["-workers", str(workers), "-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed),
                        "-metadir", meta, "-config", cfg, module], timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    res, seen = [], set()
    for line in out.splitlines():
        if line.startswith('<<"SCRIPT", '):
            txt = json.loads(line[len('<<"SCRIPT", '):-2])
            if txt not in seen:
                seen.add(txt)
                res.append(json.loads(txt))
    if not res:
        raise ToolError(f"no walks from {module}:\n" + out[-2000:])
    return res


RE_ACT = re.compile(r'\[label="([^"]*)"')


def edge_cover(run, module, consts, spec="Spec", maxlen=400, timeout=300, workers=4, start_label=None):
    """Dumps the whole state graph of a (small) model and returns walks that cover every edge.
    A walk is a list of action labels with their TLC-printed parameters."""
    cfg = run.tmp(f"{module}.cfg")
    write_cfg(cfg, spec, consts)
    meta, dot = cfg + ".meta", cfg + ".dot"
    rc, out = java_tlc(["-workers", str(workers), "-metadir", meta, "-dump", "dot,actionlabels", dot,
                        "-config", cfg, module], timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    if "No error has been found" not in out:
        raise ToolError(f"dumping {module} failed:\n" + out[-2000:])
    g, inits = {}, []
    edge = re.compile(r'^(-?\d+) -> (-?\d+) \[label="(.*?)"')
    node = re.compile(r'^(-?\d+) \[label="(.*)"(,style = filled)?\]')
    with open(dot) as f:
        for line in f:
            m = edge.match(line)
            if m:
                g.setdefault(m.group(1), []).append((m.group(3), m.group(2)))
                continue
            m = node.match(line)
            if m and m.group(3):
                inits.append(m.group(1))
    os.remove(dot)
    return g, inits


def cover_walks(g, inits, rng, maxlen=300):
    """Walks from initial nodes that together traverse every edge of g."""
    from collections import deque
    todo = {(a, i) for a, es in g.items() for i in range(len(es))}
    total = len(todo)
    walks = []
    while todo:
        n = rng.choice(inits)
        walk = []
        while len(walk) < maxlen:
            es = g.get(n, [])
            fresh = [i for i in range(len(es)) if (n, i) in todo]
            if fresh:
                i = rng.choice(fresh)
                todo.discard((n, i))
                walk.append(es[i][0])
                n = es[i][1]
                continue
            # nearest node with an untaken edge
            prev, dq, hit = {n: None}, deque([n]), None
            while dq and hit is None:
                x = dq.popleft()
                for i, (l, y) in enumerate(g.get(x, [])):
                    if y in prev:
                        continue
                    prev[y] = (x, l)
                    if any((y, j) in todo for j in range(len(g.get(y, [])))):
                        hit = y
                        break
                    dq.append(y)
            if hit is None:
                break
            path, x = [], hit
            while prev[x] is not None:
                path.append(prev[x][1])
                x = prev[x][0]
            path.reverse()
            if walk and len(walk) + len(path) >= maxlen:
                break
            walk += path
            n = hit
        if not walk:
            break
        walks.append(walk)
    return walks, total, len(todo)


# ----------------------------------------------------------------------------- replay

def replay(run, drv, scripts, timeout=400, args=(), shards=1):
    """Runs the scripts on the real code; returns the recorded events per script."""
    out = []

    def one(sh):
        sc, tr = run.tmp("scripts.ndjson"), run.tmp("trace.ndjson")
        with open(sc, "w") as f:
            for s in sh:
                f.write(json.dumps(s) + "\n")
        for attempt in range(4):
            # 75: the virtual clock went astray (see wait in harness/src/lib.rs), the run says nothing
            env = dict(os.environ, **({"JUMPS": "1"} if attempt == 3 else {}))
            try:
                p = subprocess.run([driver(drv), sc, tr, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, timeout=timeout, errors="replace", env=env)
            except subprocess.TimeoutExpired:
                raise ToolError(f"driver {drv} ran over {timeout}s")
            if p.returncode != 75:
                break
        evs = []
        with open(tr, errors="replace") as f:
            for line in f:
                try:
                    evs.append(json.loads(line))
                except ValueError:      # cut off by a crash
                    break
        os.remove(tr)
        if p.returncode != 0:
            # the code under test brought the process down: no observer allows that
            if not evs or p.returncode not in (101, -6, -11, 134, 139):
                raise ToolError(f"driver {drv} failed ({p.returncode}):\n" + p.stdout[-3000:])
            evs.append(dict(e="crash", code=p.returncode, why=p.stdout[-600:]))
        groups, cur = [], None
        for e in evs:
            if e["e"] == "reset":
                cur = [e]
                groups.append(cur)
            else:
                cur.append(e)
        return groups

    shards = max(1, min(shards, len(scripts)))
    parts = [scripts[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, parts))
    pairs = []
    for part, groups in zip(parts, res):
        for i, g in enumerate(groups):
            pairs.append((part[i] if i < len(part) else None, g))
    return pairs


def validate(run, obs, pairs, enforce, label, consts=None, chunk=2500, timeout=600):
    """TLC decides whether every recorded trace is a behaviour of the observer with the given
    properties enforced. Returns the list of rejected (script, events, index of the event)."""
    chunks, cur, n = [], [], 0
    for p in pairs:
        cur.append(p)
        n += len(p[1])
        if n >= chunk:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)

    def tlc(items):
        tr = run.tmp("t.ndjson")
        cfg = tr + ".cfg"
        c = {"Enforce": set(enforce)}
        c.update(consts or {})
        write_cfg(cfg, "TSpec", c, extra=["POSTCONDITION Accepted"])
        tot = 0
        with open(tr, "w") as f:
            for _, evs in items:
                for e in evs:
                    f.write(json.dumps(e) + "\n")
                    tot += 1
        meta = tr + ".meta"
        rc, out = java_tlc(["-workers", "1", "-metadir", meta, "-config", cfg, f"{obs}Trace"],
                           env={"TRACE": tr}, timeout=timeout, heap="2g", gc="Serial")
        shutil.rmtree(meta, ignore_errors=True)
        d = RE_DEPTH.search(out)
        st = RE_STATES.search(out)
        if "No error has been found" in out and d and int(d.group(1)) - 1 == tot:
            os.remove(tr)
            return None, tot, int(st.group(2)) if st else 0
        if "Accepted" in out and d:
            k = int(d.group(1)) - 1
            for i, (sc, evs) in enumerate(items):
                if k < len(evs):
                    return (i, k), tot, 0
                k -= len(evs)
        raise ToolError(f"TLC could not judge a trace of {obs}:\n" + out[-3500:])

    def judge(items):
        """All rejected scripts of a chunk (each is judged to its first rejected event)."""
        bad, tot, st = [], 0, 0
        rest = items
        while rest:
            r, t, s = tlc(rest)
            st += s
            if r is None:
                tot += t
                break
            i, k = r
            tot += sum(len(e) for _, e in rest[:i]) + k
            bad.append((rest[i][0], rest[i][1], k))
            rest = rest[i + 1:]
            if len(bad) >= 3:
                break
        return bad, tot, st

    bad, events = [], 0
    with ThreadPoolExecutor(min(CPUS, len(chunks) or 1)) as ex:
        for b, t, s in ex.map(judge, chunks):
            bad += b
            events += t
    run.traces += len(pairs)
    run.events += events
    if pairs and len(run.samples) < 4:
        sc, evs = pairs[min(len(pairs) - 1, 1)]
        run.samples.append(dict(family=label, script=json.dumps(sc)[:1500], trace=[json.dumps(e) for e in evs[:12]]))
    kinds = {}
    for _, evs in pairs:
        for e in evs:
            key = e["e"] + ("/" + str(e["res"]) if "res" in e else "")
            kinds[key] = kinds.get(key, 0) + 1
    run.conf.append(dict(family=label, observer=obs, enforced=sorted(enforce), traces=len(pairs), events=events,
                         rejected=len(bad), event_kinds=kinds))
    return bad


def report(run, bad, what):
    """Turns rejected traces into violations with a replay file."""
    os.makedirs(run.replay, exist_ok=True)
    for sc, evs, k in bad[:5]:
        path = os.path.join(run.replay, f"{what}-{len(run.violations)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=run.prop, family=what, seed=run.seed, tier=run.tier,
                           rejected_event=evs[k], preceding=evs[max(0, k - 25):k], script=sc, trace=evs[:k + 1]), f, indent=1)
        run.violations.append((path, f"{what}: event not allowed: {json.dumps(evs[k])}"))


# ----------------------------------------------------------------------------- evidence

def write_evidence(run, level="model_checking", extra=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.traces,
               samples=run.samples, trace_events_judged=run.events, design_models=run.models, negative_controls=run.neg, conformance=run.conf)
    cov.update(run.coverage)
    cov.update(extra or {})
    ev = dict(property=run.prop, tier=run.tier, seed=run.seed, level=level, coverage=cov,
              violations=len(run.violations), assumptions=run.assumptions,
              wall_s=round(time.time() - run.t0, 1))
    txt = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, "evidence", f"{run.prop}.json"), "w") as f:
        f.write(txt)
