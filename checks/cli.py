"""G01, G02: the command's run over generators and packages, its output rules and its exit status (cmd/controller-gen, pkg/genall)."""
import json, posixpath
from vlib import *
from options import opt

MF = "crd rbac object webhook schemapatch".split()
def package(rng, p):
    """A package's text, and what it has."""
    b = "// +groupName=%s.io\n// +versionName=v1\n" % p
    has = dict(kinds=[], rbac=False, webhook=False, object=False)
    if rng.random() < .6: has["kinds"] = rng.choice([["Ka"], ["Kb"], ["Ka", "Kb"]])
    if has["kinds"] and rng.random() < .75 or rng.random() < .3: has["object"] = True; b += "// +kubebuilder:object:generate=true\n"
    b += "package %s\n\n" % p
    if has["kinds"]: b += "import metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n"
    if rng.random() < .6: has["rbac"] = True; b += "// +kubebuilder:rbac:groups=%s.io,resources=%s,verbs=get;list\n\n" % (p, rng.choice(["a", "b", "c"]))
    if rng.random() < .6: has["webhook"] = True; b += "// +kubebuilder:webhook:path=/%s,mutating=%s,failurePolicy=fail,groups=%s.io,resources=x,verbs=create,versions=v1,name=%s.x.io,sideEffects=None,admissionReviewVersions=v1\n\n" % (p, rng.choice(["true", "false"]), p, p)
    for k in has["kinds"]:
        b += ("// +kubebuilder:object:root=true\n" if has["object"] else "") + "type %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec\"`\n}\n\n" % (k, k)
        b += "type %sSpec struct {\n%s\tF%d []%s `json:\"f\"`\n}\n\n" % (k, "\t// +kubebuilder:validation:MaxItems=%d\n" % rng.randint(1, 99), rng.randint(1, 99), rng.choice(["string", "int32"]))
    if has["object"]: b += "type Plain struct {\n\tM map[string]string\n}\n\n"
    return b, has

HEADERS = {"hdr.txt": "# header YEAR\n", "lic/go.txt": "// Copyright YEAR\n"}
RULEDIRS = ["out", "out/a", "./out//b", "cfg/../out", "@ROOT@/abs/d", "p1", ".", "out"]
CODEDIRS = ["code", "p2", "./gen/x", "@ROOT@/abs/c"]
def norm(d): return posixpath.normpath(d.replace("@ROOT@/", "") if d != "@ROOT@" else ".")
def rule(rng, target, stdout=True):
    k = rng.choice(["dir", "dir", "artifacts", "artifacts", "none"] + (["stdout"] if stdout else [])); r = dict(kind=k, config="", code=""); a = ""
    if k == "dir": d = rng.choice(RULEDIRS); r["config"] = norm(d); a = "=" + d
    if k == "artifacts":
        d = rng.choice(RULEDIRS); r["config"] = norm(d); a = ":config=" + d
        if rng.random() < .5: c = rng.choice(CODEDIRS); r["code"] = norm(c); a += ",code=" + c
    return opt(k="rule", target=target, rule=r), "output:" + (target + ":" if target else "") + k + a
def place(r, a):
    """only to aim faults at places; what is demanded is the specification's"""
    d = a["pkg"][0] if a["pkg"] and r["kind"] == "artifacts" and not r["code"] else r["code"] if a["pkg"] and r["kind"] == "artifacts" else r["config"]
    return posixpath.normpath(d + "/" + a["name"])

def base(rng):
    pk = {"p%d" % i: package(rng, "p%d" % i) for i in range(1, rng.choice([1, 2, 3, 3]) + 1)}
    files = {"%s/t.go" % p: t for p, (t, _) in pk.items()}
    gens = rng.sample(MF, rng.choice([1, 2, 3, 4, 5]))
    hdr = {g: rng.random() < .4 and g != "schemapatch" for g in gens}
    args = {}
    for g in gens:
        a = []
        if g == "rbac": a.append("roleName=r1")
        if g == "schemapatch": a.append("manifests=@D@mans")
        if hdr[g]: a.append("headerFile=@D@" + ("lic/go.txt" if g == "object" else "hdr.txt")); 
        if hdr[g] and rng.random() < .5: a.append("year=2031")
        if g == "crd" and rng.random() < .3: a.append("maxDescLen=0")
        if g == "rbac" and rng.random() < .3: a.append("fileName=%s" % rng.choice(["roles/r.yaml", "x.yaml"]))
        args[g] = a
    mans = {}
    for i in range(rng.choice([1, 2])):
        p = rng.choice(sorted(pk)); mans["mans/m%d.yaml" % i] = "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: x%d\nspec:\n  group: %s.io\n  names: {kind: %s}\n  versions:\n  - name: v1\n    schema:\n      openAPIV3Schema: {type: object}\n" % (i, p, rng.choice(pk[p][1]["kinds"] or ["Ka"]))
    return dict(pk=pk, files=dict(files, **HEADERS), gens=gens, args=args, mans=mans)

def build(rng, b, arts, faults):
    """A run of the command for a base with its artifacts."""
    c = dict(files=dict(b["files"], **b["mans"]), dirs=[], links={}, stdout="", cwd="")
    broken, blocked, loads, refused = [], [], [], False
    pk, gens = b["pk"], b["gens"]; args = {g: list(a) for g, a in b["args"].items()}
    opts, texts = [], []
    for g in gens:
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            o, t = rule(rng, g); opts.append(o); texts.append(t)
    for _ in range(rng.choice([0, 1, 1])):
        o, t = rule(rng, ""); opts.append(o); texts.append(t)
    def ruleof(g): # only to aim faults
        own = [o["rule"] for o in opts if o["k"] == "rule" and o["target"] == g] or [o["rule"] for o in opts if o["k"] == "rule" and o["target"] == ""]
        return own[-1] if own else dict(kind="artifacts", config="config/" + g, code="")
    written = [(a, place(ruleof(a["gen"]), a)) for a in arts if ruleof(a["gen"])["kind"] in ("dir", "artifacts")]
    # what lies around already
    for a, p in written:
        if rng.random() < .25 and p not in c["files"]: c["files"][p] = ("//go:build !ignore_autogenerated\n\npackage nothing\n\nfunc stale( {\n" if p.endswith(".go") else "stale:\n") + "# old\n" * rng.choice([1, 400])
    for p in rng.sample(["out/keep.yaml", "config/keep.txt", "p1/README", "role.yaml.old", "code/k", "abs/d/other.yaml", "config/crd/zz.yaml"], 3): c["files"].setdefault(p, "keep\n")
    add = lambda p, s: c["files"].__setitem__("%s/t.go" % p, c["files"]["%s/t.go" % p] + s)
    nowhere, only = [], False
    def free(q):
        there = list(c["files"]) + c["dirs"] + list(c["links"])
        return not any(x == q or x.startswith(q + "/") for x in there) and not any(q.startswith(x + "/") for x in list(c["files"]) + list(c["links"]))
    for f in faults:
        p = rng.choice(sorted(pk)); has = pk[p][1]; g = rng.choice(gens); x = None
        user = [a for a in arts if a["gen"] == g]
        if f == "header" and g != "schemapatch" and user and not any("headerFile" in s for s in args[g]): args[g].append("headerFile=nothing/there.txt"); broken.append([g, "*"])
        elif f == "manifests" and "schemapatch" in gens and any(h["kinds"] for _, h in pk.values()): args["schemapatch"] = ["manifests=nomans"]; broken.append(["schemapatch", "*"])
        elif f == "isdir" and written:
            a, q = rng.choice(written)
            if free(q): c["dirs"].append(q); blocked.append(q)
        elif f == "full" and written:
            a, q = rng.choice(written)
            if free(q): c["links"][q] = "/dev/full"; blocked.append(q)
        elif f == "below" and written:
            a, q = rng.choice(written); d = posixpath.dirname(q)
            if d and d not in pk and free(d):
                c["files"][d] = "a file\n"; blocked += [y for _, y in written if y.startswith(d + "/")]
        elif f == "stdoutfull": c["stdout"] = "/dev/full"; blocked.append("<stdout>")
        elif f == "syntax": add(p, rng.choice(["func broken( {\n", "type T struct {\n", "}\n", "var x = = 1\n"])); broken.append(["*", p]); loads.append(p)
        elif f == "import": c["files"]["%s/u.go" % p] = "package %s\n\nimport _ \"%s\"\n" % (p, rng.choice(["m.test/nope", "example.com/unknown/x"])); broken.append(["*", p]); loads.append(p)
        elif f == "dep":
            if has["kinds"] and "crd" in gens and rng.random() < .6:
                # a package that is needed and cannot be parsed
                c["files"]["dep/d.go"] = "package dep\n\ntype T struct {\n\tA string `json:\"a\"`\n}\n\nfunc broken( {\n"
                c["files"]["%s/t.go" % p] = c["files"]["%s/t.go" % p].replace("Spec struct {\n", "Spec struct {\n\tD dep.T `json:\"d\"`\n", 1).replace("import metav1", "import \"m.test/dep\"\nimport metav1")
            else:
                c["files"]["dep/d.go"] = "package dep\n\nimport _ \"m.test/nope2\"\n"; c["files"]["%s/v.go" % p] = "package %s\n\nimport _ \"m.test/dep\"\n" % p
            loads.append("dep"); broken.append(["*", p]); only = True
        elif f == "func" and has["kinds"]:
            c["files"]["%s/t.go" % p] = c["files"]["%s/t.go" % p].replace("Spec struct {\n", "Spec struct {\n\tFn func() `json:\"fn\"`\n", 1)
            for h in ["crd"] + (["object"] if has["object"] else []): broken.append([h, p])
            if "schemapatch" in gens and any("group: %s.io" % p in m and "{kind: %s}" % has["kinds"][0] in m for m in b["mans"].values()): broken.append(["schemapatch", "*"])
        elif f == "notag" and has["kinds"]:
            c["files"]["%s/t.go" % p] = c["files"]["%s/t.go" % p].replace("Spec struct {\n", "Spec struct {\n\tNoTag string\n", 1); broken.append(["crd", p])
            if "schemapatch" in gens and any("group: %s.io" % p in m and "{kind: %s}" % has["kinds"][0] in m for m in b["mans"].values()): broken.append(["schemapatch", "*"])
        elif f == "marker":
            h, m = rng.choice([("crd", "+kubebuilder:validation:MinLength=abc"), ("crd", "+kubebuilder:validation:XValidation:bogus=1"), ("rbac", "+kubebuilder:rbac:bogus=1"), ("webhook", "+kubebuilder:webhook:path=/x"), ("object", "+kubebuilder:object:root=maybe")])
            users = [h] + (["schemapatch"] if h == "crd" else [])
            if any(u in gens for u in users):
                if h in ("rbac", "webhook"): add(p, "// %s\n\n" % m)
                else: add(p, "// %s\ntype ZZ struct {\n}\n" % m if h == "object" else "type ZZ struct {\n\t// %s\n\tA string `json:\"a\"`\n}\n" % m)
                broken.append(["*", p])
        elif f == "webhook" and "webhook" in gens: add(p, "// +kubebuilder:webhook:path=/y,mutating=true,failurePolicy=fail,groups=g,resources=x,verbs=create,versions=v1,name=z.x.io,sideEffects=%s,admissionReviewVersions=v1\n\n" % rng.choice(["Some", "Unknown"])); broken.append(["webhook", "*"])
        elif f == "version" and "crd" in gens and any(a["gen"] == "crd" for a in arts): args["crd"].append("crdVersions={v1,v7}"); broken.append(["crd", "*"])
        elif f == "nowhere" and not only: nowhere.append(rng.choice(["./nowhere", "m.test/nowhere", "./nowhere/..."])); loads.append("nowhere")
        elif f == "option":
            o = rng.choice([(opt(), "bogus"), (opt(), "output:none=1"), (opt(), "crd:bogus=1"), (opt(k="rule", target="applyconfiguration", rule=dict(kind="none", config="", code="")), "output:applyconfiguration:none")]); opts.append(o[0]); texts.append(o[1])
        elif f == "harmless": add(p, rng.choice(["func uses() int { return undefined1 }\n", "var _ interface{ M() } = 3\n", "// +unknown:marker:for=nobody\ntype ZY int\n", "// +kubebuilder:validating\n\n", "func same() {}\n\nfunc same() {}\n"]))
    order = [("g", g) for g in gens]
    gl = [(opt(k="gen", name=g, set=""), g + (":" + ",".join(s.replace("@D@", "") for s in args[g]) if args[g] else "")) for g in gens]
    if "nogens" in faults: gl = []; opts, texts = [o for o in opts if not o["target"]], [t for o, t in zip(opts, texts) if not o["target"]]
    # options in any order that keeps the rules' own
    rl = list(zip(opts, texts)); out = []
    while gl or rl: out.append((gl if gl and (not rl or rng.random() < .5) else rl).pop(0))
    pa = (opt(k="paths", paths=[]), "paths=" + rng.choice(["./..."] * (not only) + [";".join("./" + p for p in sorted(pk))] if not nowhere else ["./...;" + nowhere[0], nowhere[0] + ";./..."]))
    out.insert(rng.randint(0, len(out)), pa)
    c["args"] = [t for _, t in out]
    return c, dict(opts=[o for o, _ in out], broken=broken, blocked=sorted(set(blocked)), loads=loads, unloadable=any(n[0] == "." for n in nowhere))

FAULTS = ["header", "manifests", "isdir", "full", "below", "stdoutfull", "syntax", "import", "dep", "func", "notag", "marker", "marker", "webhook", "version", "nowhere", "option", "nogens"]
def arts_of(b, o, cid):
    res = []
    for g in o["reps"][0]["gens"]:
        if g["err"] or g["regerr"] or g["panic"]: raise CheckError("%s of a healthy case: %s" % (g["gen"], g))
        for n in sorted(g["files"]):
            p, name = n.split("//") if "//" in n else (None, n)
            if p: p = posixpath.normpath(p); src = [p]
            elif g["gen"] == "crd": src = [x for x in b["pk"] if name.startswith(x + ".io_")]
            else: src = sorted(b["pk"])
            res.append(dict(gen=g["gen"], name=name, pkg=[p] if p else [], text=g["files"][n], src=src))
    if o["reps"][0]["errs"]: raise CheckError("a healthy case has errors: %s" % o["reps"][0]["errs"])
    return res

def printed(out, arts):
    """what was printed, as the contents of artifacts"""
    ids, rest = [], []; texts = sorted({a["text"] for a in arts if a["text"]}, key=len, reverse=True)
    while out:
        t = next((t for t in texts if out.startswith(t)), None)
        if t: ids.append(t); out = out[len(t):]
        else: n = out.find("\n") + 1 or len(out); rest.append(out[:n]); out = out[n:]
    return ids + rest

def record(c, want, arts, o):
    tab = {}
    nid = lambda t: "t%d" % tab.setdefault(t, len(tab))
    err = [l for l in o["err"].splitlines() if l.strip() and not l.startswith(("run `", "Error: not all generators", "Usage:"))]
    pr = [nid(t) for t in printed(o["out"], arts)]
    return dict(want, arts=[dict(gen=a["gen"], name=a["name"], pkg=a["pkg"], id=nid(a["text"]), src=a["src"]) for a in arts],
                before=sorted([p, nid(t)] for p, t in o["before"].items()), after=sorted([p, nid(t)] for p, t in o["after"].items()), printed=pr,
                refusedtext=o["exit"] != 0 and "Usage:" in o["out"] + o["err"], said=bool(err), named=sorted({m for m in re.findall(r"(?:/|^|\s)(\w+)(?=/[\w./]*\.go:|:-: |:1: |: no )", o["err"], re.M)} | {f.split("/")[0] for f in c["files"] if f.endswith("/u.go") and re.search(r"^u\.go:", o["err"], re.M)}), bare=len(re.findall(r"^\S+:(?:-|\d+(?::\d+)?):[ \t]*$", o["err"], re.M)), exit=o["exit"], crash="goroutine " in o["err"] and "panic: " in o["err"])

def run(ctx, plans):
    """plans: [(base, n, fault lists)]"""
    if ctx.replay:
        cases, wants, arts = [ctx.replay["case"]["input"]], [ctx.replay["case"]["want"]], [ctx.replay["case"]["arts"]]
    else:
        gen = build_driver(ctx, "gen")
        gc = [dict(id=str(i), files=dict(b["files"], **b["mans"]), gens=[g + (":" + ",".join(s.replace("@D@", "@DIR@/") for s in b["args"][g]) if b["args"][g] else "") for g in b["gens"]], reps=1, seed=1, order="keep", subst=True) for i, (b, _) in enumerate(plans)]
        obs = run_sharded(ctx, gen, gc, shards=4, args=["-fake"])
        cases, wants, arts = [], [], []
        for i, (b, fl) in enumerate(plans):
            ar = arts_of(b, obs[str(i)], i)
            for faults in fl:
                c, w = build(ctx.rng, b, ar, faults); c["id"] = str(len(cases)); c["faults"] = faults
                cases.append(c); wants.append(w); arts.append(ar)
    cg = build_cmd(ctx, "controller-gen"); exe = build_driver(ctx, "cli")
    obs = run_sharded(ctx, exe, cases, shards=8, args=[cg])
    recs = [record(c, w, a, obs[c["id"]]) for c, w, a in zip(cases, wants, arts)]
    for i, why in judge(ctx, "OutputConf", recs):
        o = obs[cases[i]["id"]]
        ctx.violation("%s: %s, with %s, exit %s: %s" % (why, " ".join(cases[i]["args"]), cases[i].get("faults"), o["exit"], o["err"][-400:]), dict(input=cases[i], want=wants[i], arts=arts[i], observed=dict(o, before=sorted(o["before"]))))
    for r in recs: ctx.count("failing runs" if r["exit"] else "successful runs"); ctx.count("artifacts", len(r["arts"]))
    for c in cases[:3]: ctx.sample(dict(args=c["args"], faults=c.get("faults")))
    return recs

def design(ctx):
    model_check(ctx, "RunLoop", "RunLoop_deep" if ctx.thorough else "RunLoop_run")
    for m in ("stop", "lose", "last"):
        if tlc(ctx, "RunLoop", "RunLoop_" + m, ok_codes=(0, 12), count=False)[0] != 12: raise CheckError("the run loop that may %s is not told apart" % m)

def G01(ctx):
    design(ctx); rng = ctx.rng
    n = 200 if ctx.thorough else 36
    plans = [(base(rng), [[f] for f in rng.sample(sorted(set(FAULTS)), 5)] + [rng.sample(FAULTS[:-2], 2), rng.sample(FAULTS[:-2], 3), ["harmless"], ["harmless", rng.choice(FAULTS)]]) for _ in range(n)]
    recs = run(ctx, plans)
    if not ctx.replay:
        bad = []
        for r in recs:
            if len(bad) < 4 and r["exit"] != 0: bad.append(dict(r, exit=0))
            elif len(bad) in (4, 5) and r["exit"] == 0: bad.append(dict(r, exit=1))
        demand_rejected(ctx, "OutputConf", bad, "altered exits")

def G02(ctx):
    rng = ctx.rng
    plans = [(base(rng), [[]] * 8 + [[rng.choice(FAULTS)]]) for _ in range(240 if ctx.thorough else 40)]
    recs = run(ctx, plans)
    if not ctx.replay:
        bad = []
        for k, r in enumerate([r for r in recs if r["exit"] == 0 and r["after"] != r["before"]][:9]):
            c = json.loads(json.dumps(r)); b = {tuple(x) for x in r["before"]}; new = [x for x in c["after"] if tuple(x) not in b]
            if k % 3 == 0: new[0][0] = "elsewhere/" + new[0][0]
            elif k % 3 == 1: new[0][1] = "other"
            else: c["after"].append(["more", new[0][1]])
            bad.append(c)
        demand_rejected(ctx, "OutputConf", bad, "altered files")
