"""L03: build constraints (cmd/controller-gen --load-build-tags, pkg/loader)."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *

PLATFORM = ["linux", "amd64", "unix", "gc", "cgo0"] + ["go1.%d" % i for i in range(1, 22)]
TAGS = ["a", "b", "c", "ignore_autogenerated", "e2e", "linux", "windows", "amd64", "arm64", "unix", "go1.18", "go1.99", "gc", "a.b", "ignore"]
OSES, ARCHS = ["linux", "windows", "darwin"], ["amd64", "arm64"]
def expr(rng, d):
    r = rng.random()
    if d == 0 or r < .4: return dict(op="tag", tag=rng.choice(TAGS), args=[])
    if r < .65: return dict(op="not", tag="", args=[expr(rng, d - 1)])
    return dict(op=rng.choice(["and", "or"]), tag="", args=[expr(rng, d - 1) for _ in range(rng.choice([2, 2, 3]))])
def show(e):
    if e["op"] == "tag": return e["tag"]
    if e["op"] == "not": return "!" + (show(e["args"][0]) if e["args"][0]["op"] == "tag" else "(%s)" % show(e["args"][0]) if e["args"][0]["op"] != "not" else "(%s)" % show(e["args"][0]))
    return (" && " if e["op"] == "and" else " || ").join(show(a) if a["op"] in ("tag", "not") else "(%s)" % show(a) for a in e["args"])

def package(rng, d, name):
    files, text = [], {}
    for i in range(rng.choice([1, 2, 3, 4])):
        base = "f%d" % i; suffix = []
        r = rng.random()
        if r < .1: s = rng.choice(OSES); suffix = [s]; base += "_" + s
        elif r < .15: s = rng.choice(ARCHS); suffix = [s]; base += "_" + s
        elif r < .2: s, t = rng.choice(OSES), rng.choice(ARCHS); suffix = [s, t]; base += "_%s_%s" % (s, t)
        elif r < .25: base = rng.choice(["linux", "zz_generated.deepcopy2", "a_b", "x_linux_y"]) + str(i)
        test = rng.random() < .1
        if test: base += "_test"
        when = [expr(rng, 2)] if rng.random() < .6 else []
        if rng.random() < .2: when = [rng.choice([dict(op="not", tag="", args=[dict(op="tag", tag="ignore_autogenerated", args=[])]), dict(op="tag", tag="ignore", args=[])])]
        types = ["T%d" % i] if rng.random() < .6 else []
        t = "".join("//go:build %s\n\n" % show(e) for e in when)
        if rng.random() < .2: t = "// Copyright\n\n" + t
        t += "// +kubebuilder:object:generate=true\npackage %s\n\n// +kubebuilder:rbac:groups=%s.io,resources=f%d,verbs=get\n\n" % (name, name, i) + "".join("type %s struct{ P *int }\n" % x for x in types)
        files.append(dict(name=base + ".go", test=test, suffix=suffix, when=when, resource="f%d" % i, types=types)); text[d + "/" + base + ".go"] = t
    return dict(name=name, dir=d, files=files), text

def build(rng):
    n = rng.choice([3, 5, 8]); pk, text = [], {"go.mod": "module m.test\n\ngo 1.21\n"}
    nested = rng.sample(["n1", "sub/n2"], rng.choice([0, 1, 1, 2]))
    for m in nested: text[m + "/go.mod"] = "module m.test/%s\n\ngo 1.21\n" % m
    for i in range(n):
        d = rng.choice([""] + [m + "/" for m in nested]) + "p%d" % i
        p, t = package(rng, d, "p%d" % i); pk.append(p); text.update(t)
    r = rng.random()
    if r < .35: given, args = [], []
    elif r < .45: given, args = [[]], ["--load-build-tags="]
    else:
        ts = rng.sample(TAGS[:5] + ["a.b", "windows"], rng.choice([1, 1, 2, 3])); given = [ts]
        args = ["--load-build-tags=" + ",".join(ts)] if rng.random() < .6 else [x for t in ts for x in ("--load-build-tags", t)]
    paths = rng.choice([["./..."], ["@D@/..."], ["./..."], None]) if True else None
    return dict(packages=pk, text=text, given=given, args=args, paths=paths or (["./..."]), cwd=rng.choice([".", "."]), platform=PLATFORM)

def observe(ctx, exe, c, i):
    d = ctx.path("bt%d" % i); shutil.rmtree(d, ignore_errors=True)
    for f, t in c["text"].items():
        os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True); open(d + "/" + f, "w").write(t)
    args = list(c["args"]) + ["rbac:roleName=r", "object", "output:rbac:dir=out"] + ["paths=" + p.replace("@D@", d) for p in c["paths"]]
    r = subprocess.run([exe, *args], cwd=d, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True, timeout=300)
    if r.returncode == 2 or "panic:" in r.stderr: raise ImplCrash("controller-gen crashes: " + r.stderr[:1500], [c["id"]])
    pairs = set()
    f = d + "/out/role.yaml"
    if os.path.exists(f):
        for doc in yload_all(open(f).read()):
            for rule in doc["rules"]: pairs |= {(g, x) for g in rule["apiGroups"] for x in rule["resources"]}
    ps = []
    for p in c["packages"]:
        z = d + "/" + p["dir"] + "/zz_generated.deepcopy.go"
        ps.append(dict(p, got=sorted(x for g, x in pairs if g == p["name"] + ".io"), copied=sorted(set(re.findall(r"^func \(in \*(\w+)\) DeepCopyInto\(", open(z).read(), re.M))) if os.path.exists(z) else []))
    shutil.rmtree(d)
    return dict(given=c["given"], platform=c["platform"], packages=ps, failed=r.returncode != 0, why=r.stderr[:500])

def L03(ctx):
    rng = ctx.rng
    model_check(ctx, "BuildTagsRun", "BuildTagsRun_run")
    for v in ("nested", "tests", "kept"):
        if "Right is violated" not in tlc(ctx, "BuildTagsRun", "BuildTagsRun_" + v, ok_codes=(12,), count=False)[1]: raise CheckError("the wrong way %s should be found" % v)
    cases = [ctx.replay["case"]] if ctx.replay else [build(rng) for _ in range(400 if ctx.thorough else 60)]
    for i, c in enumerate(cases): c["id"] = str(i)
    exe = build_cmd(ctx, "controller-gen")
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda x: observe(ctx, exe, x[1], x[0]), enumerate(cases)))
    ctx.count("packages", sum(len(r["packages"]) for r in recs)); ctx.count("files_read", sum(len(p["got"]) for r in recs for p in r["packages"]))
    for i, why in judge(ctx, "BuildTagsConf", recs): ctx.violation("%s: tags %s" % (why[:600], cases[i]["args"]), cases[i])
    if not ctx.violations and not ctx.replay:
        bad = []
        for r in recs:
            ps = [k for k, p in enumerate(r["packages"]) if p["got"]]
            if len(bad) >= 8 or not ps: continue
            x = json.loads(json.dumps(r)); x["packages"][ps[0]]["got"].pop(); bad.append(x)
        demand_rejected(ctx, "BuildTagsConf", bad, "files left out")
    for r in recs[:2]: ctx.sample(dict(given=r["given"], packages=r["packages"][:1]))
