"""Common machinery of the checks: building the Go drivers against /repo's working tree,
running TLC on the specifications, judging recorded observations, evidence and verdicts."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
GOROOT_BIN = "/opt/veriftools/go1.24.13/bin"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"

def goenv(extra=None):
    home = os.environ.get("HOME", "/root")
    e = dict(os.environ)
    e.update(HOME=home, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on",
             GOPATH=home + "/go", GOMODCACHE=home + "/go/pkg/mod", GOCACHE=home + "/.cache/go-build",
             GOFLAGS="-buildvcs=false", PATH=GOROOT_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.pop("GOROOT", None)
    if extra: e.update(extra)
    return e

class CheckError(Exception):
    """The check itself could not decide (never a violation)."""

class ImplCrash(CheckError):
    """The code under test crashed or hung where it never may."""
    def __init__(self, desc, cases): super().__init__(desc); self.desc, self.cases = desc, cases

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        atexit.register(self._clean)
        self.violations = []      # (key, description, case)
        self.known_hit = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.known = load_known(prop)
    def _clean(self):
        if not os.environ.get("VERIF_KEEP"):
            subprocess.run(["chmod", "-R", "u+w", self.tmp], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.tmp, ignore_errors=True)
    def path(self, *p):
        return os.path.join(self.tmp, *p)
    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)
    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit: self.cov["samples"].append(x)
    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, desc, case, key=None):
        """A behaviour of the real code that the specification forbids."""
        for k in self.known:
            if k["kind"] == "finding" and key is not None and k.get("key") == key:
                if key not in [h["key"] for h in self.known_hit]:
                    self.known_hit.append(k)
                return
        self.violations.append((key, desc, case))

# ---------------------------------------------------------------- Go drivers
def build_driver(ctx, name, extra_overlay=None, flags=()):
    """Builds /verif/driver/<name> as if it lay in /repo/pkg/schemapatcher/zzverif/<name> (so that it may
    use internal packages) from /repo's current working tree."""
    rep = {}
    root = os.path.join(VERIF, "driver")
    for d in (name, "vcommon"):
        for f in sorted(os.listdir(os.path.join(root, d))):
            if f.endswith(".go"):
                rep["%s/pkg/schemapatcher/zzverif/%s/%s" % (REPO, d, f)] = os.path.join(root, d, f)
    if extra_overlay: rep.update(extra_overlay)
    ov = ctx.path("overlay-%s.json" % name)
    with open(ov, "w") as f: json.dump({"Replace": rep}, f)
    out = ctx.path("drv-" + name)
    r = subprocess.run(["go", "build", *flags, "-overlay", ov, "-o", out, "./pkg/schemapatcher/zzverif/" + name],
                       cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("driver %s does not build:\n%s" % (name, r.stderr[-4000:]))
    return out

def build_cmd(ctx, name):
    out = ctx.path("cmd-" + name)
    r = subprocess.run(["go", "build", "-o", out, "./cmd/" + name], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0: raise CheckError("cmd/%s does not build:\n%s" % (name, r.stderr[-4000:]))
    return out

def run_driver(ctx, exe, cases, args=(), timeout=600, env=None, name="d"):
    """Feeds cases (ndjson) to the driver and returns its observations, by case id."""
    if not ctx.thorough: timeout = min(timeout, 400)
    cin, cout = ctx.path(name + "-cases.ndjson"), ctx.path(name + "-obs.ndjson")
    write_nd(cin, cases)
    tmp = ctx.path("tmp"); os.makedirs(tmp, exist_ok=True)
    e = goenv(dict(TMPDIR=tmp, VERIF_REPO=REPO)); 
    if env: e.update(env)
    try:
        r = subprocess.run([exe, *args, cin, cout], cwd=tmp, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ImplCrash("no end after %d s (a run takes some seconds)" % timeout, [c["id"] for c in cases])
    ctx.driver_stderr = r.stderr
    if r.returncode in (2, 66) and re.search(r"^(panic:|fatal error:|runtime: goroutine stack exceeds|WARNING: DATA RACE)", r.stderr, re.M) and "out of memory" not in r.stderr and "cannot allocate" not in r.stderr:
        raise ImplCrash("crash: " + r.stderr[:3000], [c["id"] for c in cases])
    if r.returncode != 0:
        raise CheckError("driver failed (%d):\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-6000:]))
    obs = {}
    for o in read_nd(cout): obs[o["id"]] = o
    missing = [c["id"] for c in cases if c["id"] not in obs]
    if missing: raise CheckError("driver gave no observation for %s" % missing[:5])
    return obs

def write_nd(path, items):
    with open(path, "w") as f:
        for it in items: f.write(json.dumps(it, ensure_ascii=True) + "\n")
def read_nd(path):
    with open(path) as f: return [json.loads(l) for l in f if l.strip()]

def clean_module(ctx):
    """go.mod/go.sum for scratch modules: the requirements of /repo."""
    with open(os.path.join(REPO, "go.mod")) as f: mod = f.read()
    mod = re.sub(r"^module .*$", "module m.test", mod, count=1, flags=re.M)
    with open(os.path.join(REPO, "go.sum")) as f: s = f.read()
    return mod, s

# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg=None, env=None, workers=8, timeout=600, heap="6g", extra=(), ok_codes=(0,), count=True, simulate=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. Returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.tmp)
    e = dict(os.environ); e["TMPDIR"] = ctx.tmp
    if env: e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + ctx.tmp, "-cp",
           TLAJAR + ":" + ":".join(sorted(os.path.join("/opt/veriftools/tla", f) for f in os.listdir("/opt/veriftools/tla") if f.endswith(".jar") and f != "tla2tools.jar")),
           "tlc2.TLC", "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", *extra]
    if simulate: cmd += ["-simulate", simulate, "-seed", str(ctx.seed)]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s timed out after %ds" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(l for l in (r.stdout + r.stderr).splitlines() if not l.startswith(("Parsing file", "Semantic proc", "Linting of")))
    if r.returncode not in ok_codes:
        raise CheckError("TLC on %s/%s exited %d:\n%s" % (module, cfg, r.returncode, out[-6000:]))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m and count:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        ctx.cov["states"] += dist
        ctx.cov["transitions"] += gen
        ctx.cov.setdefault("tlc_runs", []).append(dict(module=module, cfg=cfg or module, states=dist, transitions=gen))
    return r.returncode, out

def model_check(ctx, module, cfg=None, **kw):
    """Exhaustive check of the design model: an error here is an error of the specification, not of the code."""
    rc, out = tlc(ctx, module, cfg, **kw)
    m = re.findall(r"(\d+) distinct states found", out.replace(",", ""))
    ctx.log("TLC %s/%s: %s distinct states, no error" % (module, cfg or module, m[-1] if m else "?"))
    return out

BAD = re.compile(r'^<<"BAD", (\d+), (.*)>>\s*$')
def judge(ctx, module, records, cfg=None, chunk=None, env=None, workers=8, timeout=800, count_traces=True, heap="6g"):
    """Evaluates spec/<module>.tla on every record; the module prints <<"BAD", i, reason>> for a record
    (1-based) the specification forbids. Returns [(index0, reason)]."""
    if not records: raise CheckError("nothing to judge")
    bad = []
    chunk = chunk or len(records)
    for s in range(0, len(records), chunk):
        part = records[s:s + chunk]
        f = ctx.path("trace-%s.ndjson" % module)
        write_nd(f, part)
        e = dict(TRACE=f)
        if env: e.update(env)
        rc, out = tlc(ctx, module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
        m = re.search(r'<<"JUDGED", (\d+)>>', out)
        lines = join_prints(out)
        for l in lines:
            mm = BAD.match(l)
            if mm: bad.append((s + int(mm.group(1)) - 1, mm.group(2)))
        dist = re.findall(r"(\d+) distinct states found", out.replace(",", ""))
        if not dist or int(dist[-1]) != 2 * len(part):
            raise CheckError("TLC judged %s states for %d records of %s:\n%s" % (dist, len(part), module, out[-3000:]))
        if count_traces: ctx.cov["traces_validated_against_impl"] += len(part)
    bad.sort()
    return bad

def join_prints(out):
    """TLC pretty-prints long values over several lines: joins them again."""
    res, cur, depth = [], "", 0
    for l in out.splitlines():
        if not cur and not l.startswith("<<"):
            res.append(l); continue
        cur = (cur + " " + l.strip()) if cur else l
        bare = re.sub(r'"(\\.|[^"\\])*"', '""', cur)
        if bare.count("<<") == bare.count(">>"):
            res.append(cur); cur = ""
    if cur: res.append(cur)
    return [re.sub(r'^<<\s+', '<<', re.sub(r'\s+>>\s*$', '>>', x)) if x.startswith("<<") else x for x in res]

def demand_rejected(ctx, module, records, what, **kw):
    """Binding self-test: corrupted observations must be rejected by the specification."""
    bad = judge(ctx, module, records, count_traces=False, **kw)
    if len({i for i, _ in bad}) != len(records):
        raise CheckError("self-test: %s accepted %d corrupted observations (%s)" % (module, len(records) - len({i for i,_ in bad}), what))
    ctx.count("corrupted_observations_rejected", len(records))

# ---------------------------------------------------------------- findings, evidence, verdict
def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["entries"] if k["property"] == prop]

def finish(ctx, level="model_checking", extra=None):
    if extra: ctx.cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=ctx.cov, wall_s=round(time.time() - ctx.t0, 2))
    ev["violations"] = len(ctx.violations)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for k in ctx.known_hit:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    if ctx.violations:
        seen = set()
        for key, desc, case in ctx.violations[:5]:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            h = hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
            if h in seen: continue
            seen.add(h)
            rp = os.path.join(d, "%s-%s.json" % (ctx.prop, h))
            with open(rp, "w") as f: json.dump(dict(property=ctx.prop, reason=desc, case=case), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
            print("  " + str(desc)[:400])
        ctx.log("%d violation(s)" % len(ctx.violations))
        sys.exit(1)
    ctx.log("held; %d states, %d transitions, %d observations of the real code validated" %
            (ctx.cov["states"], ctx.cov["transitions"], ctx.cov["traces_validated_against_impl"]))
    sys.exit(0)

def run_sharded(ctx, exe, cases, shards=6, timeout=600, env=None, args=()):
    """run_driver over several processes (each case is independent of the others)."""
    from concurrent.futures import ThreadPoolExecutor
    shards = max(1, min(shards, (len(cases) + 19) // 20))
    parts = [cases[i::shards] for i in range(shards)]
    obs = {}
    with ThreadPoolExecutor(shards) as ex:
        futs = [ex.submit(run_driver, ctx, exe, p, args, timeout, env, "s%d" % i) for i, p in enumerate(parts)]
        for f in futs: obs.update(f.result())
    return obs

def yload_all(text):
    """YAML documents as plain data. Strings stay strings (the generators quote what needs quoting)."""
    import yaml
    return [d for d in yaml.load_all(text, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader)) if d is not None]
