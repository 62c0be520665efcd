"""Shared machinery: build the driver from /repo, run TLC, replay scenarios, judge traces, report."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUILDROOT = os.path.join(VERIF, "_build")
WORKERS = int(os.environ.get("VP_WORKERS", "8"))


class MachineryError(Exception):
    """The machinery could not decide; neither 'held' nor 'violated'."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def _hash_tree(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".java", "Makefile")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def build(extra="", capi=False):
    """Compile /repo's current sources and the driver; returns the driver's path. capi: with the C interface in
    dotnet/CAPI, through which that driver asks its questions."""
    trees = [os.path.join(REPO, "src", "LNLib"), os.path.join(VERIF, "driver")] + ([os.path.join(REPO, "dotnet", "CAPI")] if capi else [])
    key = _hash_tree(trees) + ("-" + hashlib.sha256(extra.encode()).hexdigest()[:6] if extra else "") + ("-capi" if capi else "")
    b = os.path.join(BUILDROOT, "drv-" + key)
    drv = os.path.join(b, "driver")
    if not os.path.exists(drv):
        # keep only a few old builds
        if os.path.isdir(BUILDROOT):
            old = sorted((os.path.join(BUILDROOT, x) for x in os.listdir(BUILDROOT) if x.startswith("drv-")), key=os.path.getmtime)
            for x in old[:-5]:
                shutil.rmtree(x, ignore_errors=True)
        os.makedirs(b, exist_ok=True)
        t = time.time()
        r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "driver"), "B=" + b, "REPO=" + REPO, "EXTRA=" + extra] + (["CAPI=1"] if capi else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(drv):
            raise MachineryError("driver does not build:\n" + r.stdout[-4000:])
        log(f"[build] {time.time() - t:.1f}s")
    return drv


def javac():
    src = os.path.join(SPEC, "java")
    key = _hash_tree([src])
    out = os.path.join(BUILDROOT, "java-" + key)
    if not os.path.exists(os.path.join(out, "done")):
        os.makedirs(out, exist_ok=True)
        files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")]
        r = subprocess.run(["javac", "-cp", JARS, "-d", out] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise MachineryError("javac failed:\n" + r.stdout)
        open(os.path.join(out, "done"), "w").close()
    return out


# ---------------------------------------------------------------- TLC
_counter = [0]


def scratch(name):
    _counter[0] += 1
    d = os.path.join(BUILDROOT, "run", f"{os.getpid()}-{_counter[0]}-{name}")
    os.makedirs(d, exist_ok=True)
    return d


def tlc(module, cfg_text, env=None, args=(), timeout=3600, heap="8g", workers=None):
    """Run TLC on spec/<module>.tla with the given configuration; returns (exit code, output, stats)."""
    d = scratch(module)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOps",
           "-Djava.io.tmpdir=" + d,
           "-cp", javac() + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers or WORKERS), "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    out = r.stdout
    st = {"generated": 0, "distinct": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])}
    else:
        m = re.findall(r"Progress: (\d+) states checked", out) or re.findall(r"The number of states generated: (\d+)", out)
        if m:
            st = {"generated": int(m[-1]), "distinct": int(m[-1])}
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out, st


def generate(module, constants, invariants=("Inv", "Emit"), init="Init", next_="Next", simulate=None, seed=None, depth=None):
    """Model-check (or simulate) a generator module; returns (scenarios, stats). An invariant violation here is a
    defect of the specification itself."""
    cfg = [f"INIT {init}", f"NEXT {next_}", "CHECK_DEADLOCK FALSE"]
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if constants:
        cfg.append("CONSTANTS")
        for k, v in constants.items():
            cfg.append(f"  {k} = {v}")
    args = []
    if simulate:
        args += ["-simulate", f"num={simulate}", "-depth", str(depth or 20), "-seed", str(seed if seed is not None else SEED)]
    rc, out, st = tlc(module, "\n".join(cfg) + "\n", args=args, workers=1 if simulate else None)
    if rc != 0:
        raise MachineryError(f"TLC failed on generator {module} (exit {rc}):\n" + out[-3000:])
    res = []
    for line in out.splitlines():
        if line.startswith('"{') and "SCN" in line:
            res.append(json.loads(json.loads(line)))
    seen, uniq = set(), []
    for r in res:
        k = json.dumps(r, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    uniq.sort(key=lambda r: json.dumps(r, sort_keys=True))
    return uniq, st


# ---------------------------------------------------------------- numbers
def hexf(x):
    return float(x).hex() if not isinstance(x, str) else x


def hx(v):
    """nested lists of numbers to nested lists of hex strings"""
    if isinstance(v, (list, tuple)):
        return [hx(x) for x in v]
    if isinstance(v, str):
        return v
    return float(v).hex()


def unhex(v):
    if isinstance(v, list):
        return [unhex(x) for x in v]
    if isinstance(v, str):
        return float.fromhex(v) if "x" in v else float(v)
    return v


def rng_for(*key):
    return random.Random(hashlib.sha256(repr((SEED,) + key).encode()).hexdigest())


# ---------------------------------------------------------------- replay
def execute(driver, scenarios, limit=30):
    """Run scenarios on the implementation in parallel; returns the trace (list of dicts, same order)."""
    d = scratch("exec")
    n = max(1, min(WORKERS, (len(scenarios) + 19) // 20))
    shards = [scenarios[i::n] for i in range(n)]

    def go(i):
        inp, outp = os.path.join(d, f"in{i}"), os.path.join(d, f"out{i}")
        with open(inp, "w") as f:
            for s in shards[i]:
                f.write(json.dumps({"id": s["id"], "ev": s["ev"]}, separators=(",", ":")) + "\n")
        r = subprocess.run([driver, inp, outp, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise MachineryError("driver failed: " + r.stderr[-2000:])
        with open(outp) as f:
            return [json.loads(x) for x in f if x.strip()]

    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(go, range(n)))
    by = {t["id"]: t for p in parts for t in p}
    shutil.rmtree(d, ignore_errors=True)
    return [by[s["id"]] for s in scenarios if s["id"] in by], len(by) == len(scenarios)


_FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"([A-Za-z0-9_]+)",\s*\{(.*?)\}\s*>>', re.S)    # TLC breaks long lines


def judge(module, trace):
    """Check a trace against spec/<module>.tla. Returns (fails, stats); fails: list of (id, event, op, name)."""
    fails = []
    stats = {"generated": 0, "distinct": 0}
    todo = list(trace)
    for attempt in range(8):
        d = scratch("trace")
        fn = os.path.join(d, "trace.ndjson")
        with open(fn, "w") as f:
            for t in todo:
                f.write(json.dumps({"id": t["id"], "ev": t["ev"]}, separators=(",", ":")) + "\n")
        rc, out, st = tlc(module, "INIT TraceInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n", env={"TRACE": fn})
        shutil.rmtree(d, ignore_errors=True)
        found = []
        if len(_FAIL.findall(out)) != out.count('"FAIL"'):
            raise MachineryError(f"{module}: a report of TLC could not be read")
        for m in _FAIL.finditer(out):
            for name in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(4)):
                found.append((int(m.group(1)), int(m.group(2)), m.group(3), name))
        if rc == 0:
            want = sum(len(t["ev"]) + 1 for t in todo)
            if st["distinct"] != want:
                raise MachineryError(f"{module}: {st['distinct']} states for {want} expected")
            stats["generated"] += st["generated"]
            stats["distinct"] += st["distinct"]
            return sorted(set(fails + found)), stats
        # TLC could not evaluate the specification on some recorded result: that result has a form no
        # behaviour of the specification has
        m = re.search(r"State 1: <Initial predicate>\s+/\\ scn = (\d+)", out) or re.search(r"\n/\\ scn = (\d+)", out)
        ls = re.findall(r"\n/\\ pos = (\d+)", out)
        if os.environ.get("VP_DEBUG"):
            log(out[-3000:])
        if not m:
            raise MachineryError(f"TLC failed on {module} (exit {rc}):\n" + out[-3000:])
        k = int(m.group(1)) - 1
        ev = int(ls[-1]) + 1 if ls else 1
        ev = min(ev, len(todo[k]["ev"]))
        msg = "result has a form the specification cannot interpret"
        fails.append((todo[k]["id"], ev, todo[k]["ev"][ev - 1]["op"], msg))
        fails += [f for f in found if f[0] == todo[k]["id"]]
        bad_id = todo[k]["id"]
        todo = [t for t in todo if t["id"] != bad_id]
        if attempt == 7 or not todo:
            return sorted(set(fails + found)), stats
    return sorted(set(fails)), stats
