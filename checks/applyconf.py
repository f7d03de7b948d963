"""A01: apply configurations (pkg/applyconfiguration, through the command)."""
import json, os, re, shutil, subprocess
from vlib import *

SCHEMA = "package schema\n\ntype GroupVersion struct {\n\tGroup, Version string\n}\ntype GroupVersionKind struct {\n\tGroup, Version, Kind string\n}\n\nfunc (gv GroupVersion) WithKind(k string) GroupVersionKind { return GroupVersionKind{gv.Group, gv.Version, k} }\n"
META = "k8s.io/apimachinery/pkg/apis/meta/v1"
NAMES = ["Foo", "Bar", "FooSpec", "BarStatus", "Part", "Deep", "Thing", "Item", "Names", "Table", "HTTPRoute", "FooList", "Extra"]
GROUPS = ["", "", "api.test", "g.example.com", "solo"]
WRAP = ["%s", "*%s", "[]%s", "map[string]%s", "%s", "%s"]
PLAIN = ["string", "*int32", "[]string", "map[string]string", "metav1.Time", "*metav1.Time", "bool"]

def types(rng):
    """[{name, kind: object|list|struct|bare|slice|map, refs, ...}]"""
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 6, 8])); res = []
    kinds = [rng.choice(["object", "object", "struct", "struct", "struct", "list", "bare", "slice", "map"]) if i else "object" for i in range(len(names))]
    for i, n in enumerate(names):
        k = kinds[i]
        refs = []
        # later ones may be referred to; earlier ones only by pointers, slices and maps (no types containing themselves)
        for j, m in enumerate(names):
            if m != n and kinds[j] != "list" and rng.random() < .35: refs.append((m, rng.choice(WRAP) if j > i else rng.choice(["*%s", "[]%s", "map[string]%s"])))
        if k in ("slice", "map"): refs = [(m, w) for m, w in refs if w == "%s"][:1]
        res.append(dict(name=n, kind=k, refs=refs, mark=rng.choice([[], [], [], [True], [True], [False]]), resource=rng.random() < (.6 if k == "object" else .1), client=k == "object" and rng.random() < .4))
        res[-1]["nonns"] = res[-1]["client"] and rng.random() < .4
    return res
def tagged(t): return t["kind"] in ("object", "list", "struct")
def code(rng, t):
    """A type with its markers in its doc or in a block before that."""
    ms = [rng.choice(["// +kubebuilder:ac:generate=%s", "// +kubebuilder:ac:generate:=%s"]) % str(b).lower() for b in t["mark"]]
    if t["resource"]: ms.append(rng.choice(["// +kubebuilder:resource", "// +kubebuilder:resource:scope=Cluster", "// +kubebuilder:resource:path=things,shortName=th"]))
    if t["client"]: ms += ["// +genclient"] + ["// +genclient:nonNamespaced"] * t["nonns"]
    ms += rng.sample(["// %s is documented." % t["name"], "// +optional", "// +kubebuilder:object:root=true", "// +kubebuilder:subresource:status"], rng.choice([0, 0, 1, 2]))
    rng.shuffle(ms)
    b = ""
    if len(ms) > 1 and rng.random() < .3: k = rng.randint(1, len(ms) - 1); b = "\n".join(ms[:k]) + "\n\n"; ms = ms[k:]
    b += "".join(m + "\n" for m in ms)
    if t["kind"] == "slice": return b + "type %s []%s\n\n" % (t["name"], t["refs"][0][0] if t["refs"] else "string")
    if t["kind"] == "map": return b + "type %s map[string]%s\n\n" % (t["name"], t["refs"][0][0] if t["refs"] else "string")
    b += "type %s struct {\n" % t["name"]
    if t["kind"] == "object": b += "\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n"
    if t["kind"] == "list": b += "\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n"
    for i, (m, w) in enumerate(t["refs"]): b += "\tR%d %s" % (i, w % m) + (" `json:\"r%d%s\"`\n" % (i, rng.choice(["", ",omitempty"])) if tagged(t) else "\n")
    for i in range(rng.choice([0, 1, 2]) or (not t["refs"] and t["kind"] == "struct")): b += "\tP%d %s" % (i, rng.choice(PLAIN)) + (" `json:\"p%d,omitempty\"`\n" % i if tagged(t) else "\n")
    if rng.random() < .2 and tagged(t): b += "\tX metav1.ListMeta `json:\"x\"`\n"
    return b + "}\n\n"

OUT = ["applyconfiguration", "other", "../../clients", "ac/deep"]
def case(rng, i):
    files, pkgs, seen = {"fakeapi/pkg/runtime/schema/s.go": SCHEMA}, [], False
    dirs = rng.sample(["batch/v1", "batch/v2beta1", "apps/v1", "apps/v1alpha1", "core/types"], rng.choice([1, 1, 2, 3]))
    for d in dirs:
        ts = types(rng); bad = rng.random() < (.25 if len(dirs) > 1 else .05)
        p = dict(dir="c%d/%s" % (i, d), enable=rng.choice([[], [True], [True], [False]]), types=ts, bad=False, group=rng.choice(GROUPS), docgo=False)
        out = rng.choice(["", "", "", *OUT]); 
        if out == "../../clients":
            out = "" if seen else out; seen = True
        p["out"] = os.path.normpath(p["dir"] + "/" + (out or "applyconfiguration"))
        ms = [rng.choice(["// +kubebuilder:ac:generate=%s", "// +kubebuilder:ac:generate:=%s"]) % str(b).lower() for b in p["enable"]]
        if bad:
            if rng.random() < .5: ms = ["// +kubebuilder:ac:generate=" + rng.choice(["foo", "1", '"yes please'])]; p["enable"] = []
            else: t = rng.choice(ts); t["mark"] = []; t["badmark"] = True
            p["bad"] = True
        if out: ms.append('// +kubebuilder:ac:output:package="%s"' % out)
        g = ["// +groupName=" + p["group"]] if p["group"] else []
        doc = rng.random() < .5; p["docgo"] = doc and bool(g)
        rng.shuffle(ms); pn = d.rsplit("/", 1)[1]
        head = "package %s\n\nimport (\n\tmetav1 \"%s\"\n\t\"k8s.io/apimachinery/pkg/runtime/schema\"\n)\n\n" % (pn, META)
        scheme = 'var SchemeGroupVersion = schema.GroupVersion{Group: "%s", Version: "%s"}\n\n' % (p["group"] or d.split("/")[0], pn)
        use = "var _ metav1.TypeMeta\n\n"
        if doc: files[p["dir"] + "/doc.go"] = "".join(m + "\n" for m in ms + g) + "package %s\n" % pn; mk = []
        else: mk = ms + g
        k = rng.randint(0, len(mk)); top, rest = mk[:k], mk[k:]
        src = [code(rng, t) if not t.get("badmark") else "// +kubebuilder:ac:generate=maybe\n" + code(rng, t) for t in ts]
        if len(src) > 2 and rng.random() < .4:
            files[p["dir"] + "/u.go"] = "package %s\n\nimport metav1 \"%s\"\n\nvar _ metav1.ListMeta\n\n" % (pn, META) + "".join(src[2:]); src = src[:2]
        files[p["dir"] + "/t.go"] = "".join(m + "\n" for m in top) + head + "".join(m + "\n" for m in rest) + "\n" * bool(rest) + scheme + use + "".join(src)
        pkgs.append(p)
    # packages within another's output or the same output directory are left out
    h = rng.choice(["", "", "", "h.txt", "h.txt", "absent.txt"]) if rng.random() < .6 else ""
    if h == "h.txt": files["h.txt"] = "// Held by case %d.\n// All rights.\n" % i
    ps = ["paths=./" + p["dir"] for p in pkgs]
    if len(ps) > 1 and rng.random() < .4: ps = ["paths=" + ";".join("./" + p["dir"] for p in pkgs)]
    args = ps + ["applyconfiguration" + (":headerFile=" + h if h else "")] + ["rbac:roleName=r", "output:rbac:none"] * (rng.random() < .2)
    rng.shuffle(args)
    return dict(id=str(i), files=files, args=args, header=h, pkgs=pkgs)

def api(p, bydir=False):
    g, v = p["dir"].split("/")[-2:]
    return "%s/%s" % (g if bydir or not p["group"] else p["group"], v)

def record(c, o, compiles):
    s, t = o["steps"]; texts = o["texts"]; wrote = dict(s["wrote"]); left = set(wrote); pk = []
    for p in c["pkgs"]:
        g, v = p["dir"].split("/")[-2:]; sub = "%s/%s/%s" % (p["out"], g, v)
        got = dict(types=[], objects=[], kinds=[], apis=[], compiles=True, header=True, support=False, more=[])
        mine = {f: texts[wrote[f]] for f in wrote if f.startswith(p["out"] + "/")}
        left -= set(mine)
        for f, x in sorted(mine.items()):
            if c["header"] == "h.txt" and not x.startswith(c["files"]["h.txt"]): got["header"] = False
            if f == p["out"] + "/utils.go":
                got["kinds"] = re.findall(r'WithKind\("(\w+)"\):\n\s*return &\w+\.\1ApplyConfiguration\{\}', x)
                continue
            if f == p["out"] + "/internal/internal.go": continue
            m = re.findall(r"^type (\w+)ApplyConfiguration struct", x, re.M)
            if os.path.dirname(f) != sub or len(m) != 1 or os.path.basename(f) != m[0].lower() + ".go": got["more"].append(f); continue
            got["types"].append(m[0])
            k = re.search(r"^func %s\(([^)]*)\) \*%sApplyConfiguration \{\n(.*?)^\}" % (m[0], m[0]), x, re.M | re.S)
            if k and k[1]:
                got["objects"].append([m[0], len(k[1].split(","))])
                got["apis"] += [[m[0], a] for a in re.findall(r'WithAPIVersion\("([^"]*)"\)', k[2])]
                if re.findall(r'WithKind\("(\w+)"\)', k[2]) != [m[0]]: got["apis"].append([m[0], "of another kind"])
        got["support"] = {p["out"] + "/utils.go", p["out"] + "/internal/internal.go"} <= set(mine)
        got["compiles"] = not any(d == p["out"] or d.startswith(p["out"] + "/") for d in compiles)
        ts = [dict(name=t["name"], object=t["kind"] == "object", tagged=tagged(t), mark=t["mark"], resource=t["resource"], client=t["client"], nonns=t["nonns"], refs=[r for r, _ in t["refs"]]) for t in p["types"]]
        pk.append(dict(dir=p["dir"], api=api(p), dirapi=api(p, True), docgo=p["docgo"], bad=p["bad"], enable=p["enable"], types=ts, got=got))
    return dict(pkgs=pk, elsewhere=sorted(left), same=s["wrote"] == t["wrote"] and not t["kept"] and s["exit"] == t["exit"], exit=s["exit"], broken=c["header"] == "absent.txt")

def compile_all(ctx, cases, obs):
    """Builds everything generated against the real libraries: the directories with errors."""
    d = ctx.path("acmod"); os.makedirs(d)
    fx = os.path.join(REPO, "pkg/applyconfiguration/testdata/cronjob")
    with open(fx + "/go.mod") as f: mod = f.read()
    with open(d + "/go.mod", "w") as f: f.write(re.sub(r"^module .*$", "module m.test", mod, count=1, flags=re.M))
    shutil.copy(fx + "/go.sum", d + "/go.sum")
    def put(n, x):
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        with open(d + "/" + n, "w") as f: f.write(x)
    for c in cases:
        o = obs[c["id"]]
        for n, x in c["files"].items():
            if n.startswith("c") and not any(p["bad"] and n.startswith(p["dir"] + "/") for p in c["pkgs"]): put(n, x)
        for n, h in o["steps"][0]["wrote"].items(): put(n, o["texts"][h])
    r = subprocess.run(["go", "build", "-gcflags=-e", "./..."], cwd=d, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True)
    bad = {os.path.dirname(m) for m in re.findall(r"^(\S+?\.go):\d+", r.stderr, re.M)}
    if r.returncode and not bad: raise CheckError("cannot build: " + r.stderr[-3000:])
    ctx.compile_errors = r.stderr
    shutil.rmtree(d)
    return bad

def A01(ctx):
    model_check(ctx, "ApplyConfRun", "ApplyConfRun_run")
    for m in ("nostrip", "plain", "pkgfirst"): tlc(ctx, "ApplyConfRun", "ApplyConfRun_" + m, ok_codes=(12,), count=False)
    rng = ctx.rng
    cases = [ctx.replay["case"]["input"]] if ctx.replay else [case(rng, i) for i in range(240 if ctx.thorough else 40)]
    runs = [dict(id=c["id"], steps=[dict(files=c["files"], args=c["args"], env=[], clean=False, cwd="", lib=False), dict(files=None, args=c["args"], env=[], clean=False, cwd="", lib=False)]) for c in cases]
    cg = build_cmd(ctx, "controller-gen")
    obs = run_sharded(ctx, build_driver(ctx, "repro"), runs, shards=8, args=[cg, cg])
    compiles = compile_all(ctx, cases, obs)
    recs = [record(c, obs[c["id"]], compiles) for c in cases]
    for c, r in zip(cases, recs):
        if not r["broken"]:
            for s in obs[c["id"]]["steps"]:
                if "panic:" in s["err"]: raise ImplCrash("apply configurations crash: " + s["err"][:800], [c["id"]])
        for p in r["pkgs"]: ctx.count("packages"); ctx.count("apply configurations", len(p["got"]["types"]))
        ctx.count("failing runs" if r["exit"] else "runs")
    for i, why in judge(ctx, "ApplyConfConf", recs):
        c = cases[i]; reasons = re.findall(r'<<"([^"]*)", "([^"]*)", "([^"]*)">>', why)
        known = [x for x in reasons if x[0] == "api version by directory"]; new = [x for x in reasons if x[0] != "api version by directory"]
        case_ = dict(input=c, observed=dict(steps=obs[c["id"]]["steps"]), errors=[l for l in ctx.compile_errors.splitlines() if "c%s/" % c["id"] in l][:20])
        if known: ctx.violation("constructors of apply configurations set the API version the directory suggests: %s" % known[:3], case_, key="api-version-from-directory")
        if new: ctx.violation("%s; %s %s" % (new[:6], c["args"], obs[c["id"]]["steps"][0]["err"][:300]), case_)
        if not reasons: ctx.violation(why, case_)
    for r in recs[:3]: ctx.sample(r)
    if not ctx.replay:
        bad = []
        for r in [r for r in recs if r["pkgs"][0]["got"]["types"]][:8]:
            r = json.loads(json.dumps(r)); g = r["pkgs"][0]["got"]; k = len(bad) % 4
            if k == 0: g["types"].pop()
            elif k == 1: g["types"].append("More")
            elif k == 2: g["kinds"] = []
            else: r["exit"] = 1 - min(r["exit"], 1)
            bad.append(r)
        demand_rejected(ctx, "ApplyConfConf", bad, "altered sets of apply configurations")
