"""G04: generation is reproducible (all generators, through the command)."""
import json, re, subprocess
from vlib import *
import crdgen, deepcopy, webhook, rbac

FIELD = {
 "string": ["MinLength=1", "MaxLength=20", "Pattern=`^a+$`", "Enum=a;b;c", "Format=date", "Type=string", "XIntOrString"],
 "int32": ["Minimum=1", "Maximum=9", "ExclusiveMinimum=true", "MultipleOf=3", "Enum=1;2;3", "Format=int64"],
 "[]string": ["MinItems=1", "MaxItems=5", "UniqueItems=true", "items:MinLength=2", "items:MaxLength=9", "items:Pattern=x", "items:Enum=a;b"],
 "map[string]string": ["MinProperties=1", "MaxProperties=3"],
}
EXTRA = {"[]string": ["// +listType=set", "// +listType=atomic"], "map[string]string": ["// +mapType=atomic", "// +kubebuilder:pruning:PreserveUnknownFields"], "string": ['// +kubebuilder:default="a"', '// +kubebuilder:example="b"', '// +default="a"'], "int32": ["// +kubebuilder:default=3", "// +nullable"]}
def field_marks(rng, t):
    v = rng.sample(FIELD[t], min(len(FIELD[t]), rng.choice([0, 1, 2, 3, 4])))
    if "XIntOrString" in v and len(v) > 1: v.remove("XIntOrString")
    ms = ["// +kubebuilder:validation:" + x for x in v] + rng.sample(EXTRA[t], rng.choice([0, 1, 1]))
    ms += ['// +kubebuilder:validation:XValidation:rule="%s"%s' % (r, rng.choice(["", ',message="m%d"' % rng.randint(1, 9)])) for r in rng.sample(["self.size() > 1", "self != 'x'", "true", "has(self.a)", "oldSelf == self"], rng.choice([0, 0, 1, 2, 3]))]
    rng.shuffle(ms); return ms
def struct(rng, name, emb, refs, n):
    b = "".join("\t%s `json:\",inline\"`\n" % e for e in emb)
    for i, j in enumerate(rng.sample("abcdefgh" if refs else "abcdef", n)):
        # one name has one type everywhere (embedded types share names), some names refer to other types where there are any
        t = rng.choice(refs) if refs and j in "gh" else list(FIELD)["abcdefgh".index(j) % 4]
        ms = field_marks(rng, t) if t in FIELD else []
        ms += rng.sample(["// +optional", "// +kubebuilder:validation:Required", "// F is documented."], rng.choice([0, 0, 1]))
        b += "".join("\t%s\n" % m for m in ms) + "\tF%s%d %s `json:\"%s\"`\n" % (j, i, t, j)
    return "type %s struct {\n%s}\n\n" % (name, b)
TYPEM = ["// +kubebuilder:validation:XPreserveUnknownFields", '// +kubebuilder:validation:XValidation:rule="has(self.a)"', '// +kubebuilder:validation:XValidation:rule="has(self.b)"', "// +kubebuilder:validation:MinProperties=1", "// +kubebuilder:validation:MaxProperties=9", "// +structType=atomic", "// +kubebuilder:pruning:PreserveUnknownFields", "// +kubebuilder:validation:ExactlyOneOf=a;b", "// +kubebuilder:validation:AtMostOneOf=c;d", "// +kubebuilder:validation:AtMostOneOf=e;f"]
def rich(rng):
    """Kinds in two versions of a group whose schemas have many parts to put in order: markers, embedded types, types of the same name in other packages."""
    files = {}
    com = "package %s\n\n" 
    for p in ("base", "other"):
        b = "// +kubebuilder:object:generate=true\npackage %s\n\n" % p
        for n in ("Common", "Shared", "Emb"): b += "".join(m + "\n" for m in rng.sample(TYPEM, rng.choice([0, 1, 2, 3]))) + struct(rng, n, [], [], rng.randint(1, 4))
        for n, t in (("Str", "string"), ("Num", "int32"), ("Lst", "[]string")): b += "".join(m + "\n" for m in field_marks(rng, t) if "fault" not in m and "example" not in m and "nullable" not in m) + "type %s %s\n\n" % (n, t)
        files["k/%s/t.go" % p] = b
    stored = rng.choice(["v1", "v2"])
    for v in ("v1", "v2"):
        b = "// +kubebuilder:object:generate=true\n// +groupName=rich.io\npackage %s\n\nimport metav1 \"%s\"\nimport \"m.test/k/base\"\nimport \"m.test/k/other\"\n\nvar _ base.Str\nvar _ other.Str\n\n" % (v, crdgen.META)
        b += struct(rng, "Emb", [], [], 3) + struct(rng, "Emb2", rng.sample(["Emb", "other.Shared"], rng.choice([0, 1])), [], 3) + struct(rng, "Common", [], [], 2)
        refs = ["base.Common", "other.Common", "Common", "base.Str", "*other.Num", "[]base.Lst", "map[string]other.Shared", "base.Shared", "[]base.Str"]
        for k in ("Ra", "Rb"):
            b += "".join(m + "\n" for m in rng.sample(TYPEM, rng.choice([0, 1, 2]))) + struct(rng, k + "Spec", rng.sample(["base.Emb", "Emb2", "other.Emb"], rng.choice([0, 0, 1, 2, 3])), refs, rng.randint(2, 6))
            b += "// +kubebuilder:object:root=true\n" + ("// +kubebuilder:storageversion\n" if v == stored else "") + rng.choice(["", "// +kubebuilder:resource:shortName=b;a,categories=z;y\n", "// +kubebuilder:subresource:status\n"]) + "type %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec\"`\n}\n\n" % (k, k)
        files["k/%s/t.go" % v] = b
    return files

def sources(rng, i):
    """A whole module: kinds of all shapes, types to copy, webhooks and roles."""
    files = dict(rich(rng))
    f, gopt, case = crdgen.gen(rng, False); files.update({n: t.replace("@MOD@", "m.test") for n, t in f.items()}); files.pop("boilerplate.txt", None)
    f, rec, name = deepcopy.case(rng, 5 + i, "values"); files.update({"dc/" + n: t.replace("@MOD@", "m.test/dc") for n, t in f.items()})
    for j in range(rng.choice([1, 2, 3])):
        whs = [webhook.mk(rng, True) for _ in range(rng.choice([0, 2, 5, 14]))]
        # names of webhooks are unique; within one package equal names stay in the order of the source
        for w in whs: w["name"] = "w%d.%s" % (j, w["name"])
        if rng.random() < .4:
            for k, w in enumerate(whs): w["name"] = "same%d.x.io" % j; w["path"], w["url"] = "/p%d" % k, ""
        f = webhook.render_pkg(rng, dict(cfgs=[dict(mutating=True, name="conf")] if rng.random() < .3 and j == 0 else [], whs=whs), "w%d" % j); files.update({"w%d/%s" % (j, n): t for n, t in f.items()})
    for j in range(2):
        ms = [rbac.rand_marker(rng, True) for _ in range(rng.choice([1, 3, 6]))]; f = rbac.files_for(rng, ms, True); files.update({"r%d/%s" % (j, n): t for n, t in f.items()})
    return files
def scopes(files):
    """The packages each kind of file is made from."""
    s = dict(object={}, crd={}, rbac=set(), webhook=set())
    for n, t in files.items():
        if not n.endswith(".go"): continue
        d = n.rsplit("/", 1)[0]; s["object"].setdefault(d, {d})
        m = re.search(r"^// \+groupName=(\S+)$", t, re.M)
        if m: s["crd"].setdefault(m[1], set()).add(d)
        for g in ("rbac", "webhook"):
            if "+kubebuilder:%s:" % g in t or "+kubebuilder:%sconfiguration:" % g in t: s[g].add(d)
    return s
def scope(s, gen, path):
    if gen == "object": return sorted(s["object"].get(path.rsplit("/", 1)[0], set()))
    if gen in ("rbac", "webhook"): return sorted(s[gen])
    if gen == "crd": return sorted(s["crd"].get(path.rsplit("/", 1)[1].split("_")[0], set()))
    return sorted(set().union(*s["crd"].values()) if s["crd"] else set())     # patched manifests: every group
def owner(p):
    if p.endswith("/zz_generated.deepcopy.go"): return "object"
    return {"out/crd": "crd", "out/rbac": "rbac", "out/webhook": "webhook", "out/schemapatch": "schemapatch"}.get("/".join(p.split("/")[:2]), "")

GENS = ["crd", "object", "rbac", "webhook", "schemapatch"]
def steps(rng, srcs, dirs):
    """[(source version, generators, roots, clean, args, env, cwd)]"""
    opt = dict(crd=["crd", "crd:generateEmbeddedObjectMeta=true"][rng.random() < .5], object="object", rbac="rbac:roleName=role", webhook="webhook", schemapatch="schemapatch:manifests=@ROOT@/mans")
    res, orders = [], {}
    def add(src, gens, roots, clean=False, env=(), cwd="", how="list", lib=""):
        gens = list(gens); rng.shuffle(gens)
        o = [opt[g] for g in gens] + ["output:%s:dir=@ROOT@/out/%s" % (g, g) for g in gens if g != "object"]
        rs = list(roots); rng.shuffle(rs)
        if how in ("list", "import") and rng.random() < .6: rs = orders.setdefault((src, tuple(sorted(roots))), rs)
        pa = {"all": ["paths=./..."], "list": ["paths=" + ";".join("./" + r for r in rs)] if rng.random() < .5 else ["paths=./" + r for r in rs], "cwd": ["paths=../..."], "import": ["paths=" + ";".join("m.test/" + r for r in rs)]}[how]
        for p in pa: o.insert(rng.randint(0, len(o)), p)
        res.append((src, gens, dict(roots=sorted(roots), how=how if how in ("list", "import") else "", order=rs if how in ("list", "import") else sorted(roots)), clean, o, list(env), cwd, lib))
    everything = lambda s: dirs[s]
    def group(s): # all packages of some groups and any others
        sc = scopes(srcs[s])["crd"]; gs = rng.sample(sorted(sc), rng.randint(1, len(sc)))
        r = set().union(*[sc[g] for g in gs]) if gs else set()
        return sorted(r | set(rng.sample(everything(s), rng.choice([0, 1, 2]))) - (set().union(*[sc[g] for g in sc if g not in gs]) if len(gs) < len(sc) else set())) or everything(s)
    add("A", GENS, everything("A"), how="all")
    plans = [lambda: add("A", GENS, everything("A"), how="all"),
             lambda: add("A", GENS, everything("A")),
             lambda: add("A", GENS, everything("A"), clean=True, how="import"),
             lambda: add("A", GENS, everything("A"), env=["GOMAXPROCS=%d" % rng.choice([1, 1, 2])], how="all"),
             lambda: add("A", rng.sample(GENS, 2), everything("A"), how="all"),
             lambda: add("A", ["object"], rng.sample(everything("A"), rng.randint(1, len(everything("A")))), clean=rng.random() < .5),
             lambda: add("A", ["crd", "schemapatch", "object"], group("A"), clean=rng.random() < .3),
             lambda: add("A", GENS, everything("A"), cwd="out", how="cwd"),
             lambda: add("A", GENS, everything("A"), how="all", lib=rng.choice(["once", "twice", "twice", "again"])),
             lambda: add("B", GENS, everything("B"), how="all"),
             lambda: add("B", GENS, everything("B"), clean=True),
             lambda: add("A", GENS, everything("A"), how="all")]
    k = plans[:]; rng.shuffle(k)
    for p in k: p()
    return res

def manifests(rng, srcs):
    out = {}
    ks = [("rich.io", "Ra"), ("rich.io", "Rb")] + [(g, k) for g in crdgen.GROUPS for k in sorted(crdgen.KINDS)]
    for i, (g, k) in enumerate(ks[:2] + rng.sample(ks[2:], 8)):
        t = "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: %s.%s\nspec:\n  group: %s\n  names: {kind: %s}\n  versions:\n" % (k.lower(), g, g, k)
        t += "".join("  - name: %s\n    schema:\n      openAPIV3Schema: {type: object}\n" % v for v in rng.sample(["v1", "v2", "v1alpha1", "v1beta1"], rng.choice([1, 2, 3])))
        f = "mans/%s.yaml" % ("m%d" % i if rng.random() < .6 else "all"); out[f] = (out[f] + "---\n" if f in out else "") + t
    return out

def mk(rng, i):
    srcs = dict(A=sources(rng, i), B=sources(rng, i))
    mans = manifests(rng, srcs)
    for s in srcs.values(): s.update(mans)
    dirs = {s: sorted({n.rsplit("/", 1)[0] for n in f if n.endswith(".go")}) for s, f in srcs.items()}
    sts = steps(rng, srcs, dirs)
    cur, ss = None, []
    for src, gens, roots, clean, args, env, cwd, lib in sts:
        ss.append(dict(files=srcs[src] if src != cur else None, args=[lib] * bool(lib) + args, env=env, clean=clean, cwd=cwd, lib=bool(lib))); cur = src
    return dict(steps=ss), dict(plan=[dict(r, src=s, gens=g, clean=c) for s, g, r, c, *_ in sts], scopes={s: {k: ({x: sorted(y) for x, y in v.items()} if isinstance(v, dict) else sorted(v)) for k, v in scopes(f).items()} for s, f in srcs.items()})

def record(c, plan, o):
    sc = {s: {k: ({x: set(y) for x, y in v.items()} if isinstance(v, dict) else set(v)) for k, v in d.items()} for s, d in plan["scopes"].items()}
    paths = sorted({p for s in o["steps"] for k in ("wrote", "kept") for p in s[k]})
    arts = [dict(path=p, gen=owner(p), scope={s: scope(sc[s], owner(p), p) if owner(p) else [] for s in sc}) for p in paths]
    runs = [dict(p, wrote=sorted(map(list, s["wrote"].items())), kept=sorted(map(list, s["kept"].items())), exit=s["exit"]) for p, s in zip(plan["plan"], o["steps"])]
    return dict(arts=arts, runs=runs)

def race(ctx, cases):
    """The same runs under the race detector: schedules that happen not to differ are told by unordered accesses."""
    out = ctx.path("cg-race")
    r = subprocess.run(["go", "build", "-race", "-o", out, "./cmd/controller-gen"], cwd=REPO, env=goenv(dict(CGO_ENABLED="1")), capture_output=True, text=True)
    if r.returncode: raise CheckError("race build: " + r.stderr[-2000:])
    cs = [dict(id=c["id"], steps=[dict(s, env=s["env"] + ["GORACE=exitcode=66"]) for s in c["steps"] if not s["lib"]][:2]) for c in cases]
    obs = run_sharded(ctx, build_driver(ctx, "repro"), cs, shards=4, args=[out, out])
    for c in cs:
        for s, t in zip(c["steps"], obs[c["id"]]["steps"]):
            ctx.count("runs under the race detector")
            if t["exit"] == 66: ctx.violation("the outcome depends on the schedule: " + t["err"][:1500], dict(input=c, args=s["args"]), key="race")

def run(ctx):
    model_check(ctx, "ReproRun", "ReproRun_deep" if ctx.thorough else "ReproRun_run")
    for m in ("unsorted", "visible", "memory"): tlc(ctx, "ReproRun", "ReproRun_" + m, ok_codes=(12,), count=False)
    rng = ctx.rng
    if ctx.replay: cases, plans = [ctx.replay["case"]["input"]], [ctx.replay["case"].get("plan")]
    else: cases, plans = map(list, zip(*[mk(rng, i) for i in range(150 if ctx.thorough else 24)]))
    for i, c in enumerate(cases): c["id"] = str(i)
    obs = run_sharded(ctx, build_driver(ctx, "repro"), cases, shards=8, args=[build_cmd(ctx, "controller-gen"), build_driver(ctx, "libgen")])
    recs = [record(c, p, obs[c["id"]]) for c, p in zip(cases, plans)]
    for i, why in judge(ctx, "ReproConf", recs):
        o = obs[cases[i]["id"]]
        ctx.violation("%s; runs: %s" % (why, [(p["src"], p["gens"], s["exit"]) for p, s in zip(plans[i]["plan"], o["steps"])]), dict(input=cases[i], plan=plans[i], observed=o))
    for r in recs:
        for x in r["runs"]: ctx.count("failing runs" if x["exit"] else "runs"); ctx.count("files written", len(x["wrote"]))
    for c, o in list(zip(cases, recs))[:2]: ctx.sample([s["args"] for s in c["steps"]])
    if os.environ.get("G04_DEBUG"):
        for c in cases:
            for s in obs[c["id"]]["steps"]:
                if s["exit"]: print(s["err"][:600]); break
    if not ctx.replay:
        bad = []
        for k, r in enumerate(recs[:8]):
            r = json.loads(json.dumps(r)); x = r["runs"][0]
            w = [w for w in x["wrote"] if w[0].startswith("out/crd")][0]
            if k % 4 == 0: w[1] = "other"
            elif k % 4 == 1: x["wrote"].remove(w)
            elif k % 4 == 2: [y for y in r["runs"] if set(y["gens"]) == {"object"}][0]["wrote"].append([[a for a in r["arts"] if a["gen"] == "crd"][0]["path"], "x"])
            else: x["exit"] += 1
            bad.append(r)
        demand_rejected(ctx, "ReproConf", bad, "contents changed, files lost or written by others, exit status changed")
        race(ctx, cases if ctx.thorough else cases[:3])

def G04(ctx): run(ctx)
