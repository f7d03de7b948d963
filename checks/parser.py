"""P01: asking the parser of API packages (pkg/crd/parser.go, pkg/crd/spec.go)."""
import json
from vlib import *

VERS = ["v1", "v1alpha1", "v1beta1", "v2"]   # in the order of the texts
def world(rng):
    n = rng.choice([2, 3, 3, 4]); used = set(); pkgs = []
    for i in range(n):
        name = "p%d" % i
        v = rng.choice(VERS); g = [] if rng.random() < .2 else [rng.choice(["g.io", "g.io", "h.io"])]
        if g and (g[0], v) in used: g = []
        if g: used.add((g[0], v))
        pkgs.append(dict(name=name, group=g, version=v if g else name, rank=VERS.index(v), types=sorted(rng.sample(["K", "L", "T", "U"], rng.choice([2, 3, 4])))))
    refs = []; storage = [dict(pkg=p["name"], name=t) for p in pkgs for t in p["types"] if t in "KL" and p["group"] and rng.random() < .4]
    for i, p in enumerate(pkgs):
        for t in p["types"]:
            for j in range(i, n):
                for u in pkgs[j]["types"]:
                    if rng.random() < (.3 if i == j else .2): refs.append([dict(pkg=p["name"], name=t), dict(pkg=pkgs[j]["name"], name=u)])
    return dict(pkgs=pkgs, refs=refs, storage=storage)
def sources(rng, w):
    res = {}
    for p in w["pkgs"]:
        b = ""
        for t in p["types"]:
            me = dict(pkg=p["name"], name=t)
            if me in w["storage"]: b += "// +kubebuilder:storageversion\n"
            b += "// %s of %s.\ntype %s struct {\n\t// Length of it.\n\t// +kubebuilder:validation:Minimum=%d\n\tN int `json:\"n\"`\n" % (t, p["name"], t, rng.randint(0, 9))
            for k, (a, c) in enumerate(w["refs"]):
                if a != me: continue
                n = c["name"] if c["pkg"] == p["name"] else "%s.%s" % (c["pkg"], c["name"])
                form = rng.choice(["*%s", "[]%s", "map[string]%s", "*%s"]) if c["pkg"] == p["name"] else rng.choice(["%s", "*%s", "[]%s", "map[string]%s"])
                if c["pkg"] != p["name"] and rng.random() < .2 and sum(1 for x, y in w["refs"] if x == me and y["name"] == c["name"]) == 1 and c["name"] != t: b += "\t%s `json:\",inline\"`\n" % n
                else: b += "\tF%d %s `json:\"f%d\"`\n" % (k, form % n, k)
            b += "}\n\n"
        imports = sorted({c["pkg"] for a, c in w["refs"] if a["pkg"] == p["name"] and c["pkg"] != p["name"]})
        head = ("// +groupName=%s\n// +versionName=%s\n" % (p["group"][0], p["version"]) if p["group"] else "")
        res["%s/a.go" % p["name"]] = head + "package %s\n\n" % p["name"] + "".join('import "@MOD@/%s"\n' % i for i in imports) + "\n" + b
    return res
def asks(rng, w, n):
    ts = [(p["name"], t) for p in w["pkgs"] for t in p["types"]]; res = []
    for _ in range(n):
        if res and rng.random() < .15: res.append(dict(rng.choice(res))); continue
        op = rng.choice(["package", "schema", "flat", "flat", "crd", "crd"]); p, t = rng.choice(ts)
        res.append(dict(op=op, pkg=p, name="", group="", described=rng.random() < .3) if op == "package" else
                   dict(op=op, pkg="", name=rng.choice("KKLT"), group=rng.choice(["g.io", "g.io", "h.io", "none.io"]), described=rng.random() < .5) if op == "crd" else dict(op=op, pkg=p, name=t, group="", described=False))
    return res

def P01(ctx):
    model_check(ctx, "ParserRun", "ParserRun_run")
    tlc(ctx, "ParserRun", "ParserRun_again", ok_codes=(13, 12), count=False)
    rng = ctx.rng; cases, ws = [], []
    if ctx.replay: cases, ws = [ctx.replay["case"]["input"]], [ctx.replay["case"]["world"]]
    else:
        for i in range(2400 if ctx.thorough else 400):
            w = world(rng); ws.append(w)
            cases.append(dict(id=str(i), mode="asks", files=sources(rng, w), asks=asks(rng, w, rng.choice([3, 6, 10, 16] if not ctx.thorough else [6, 12, 30]))))
    obs = run_sharded(ctx, build_driver(ctx, "crd"), cases)
    recs, at = [], []
    for i, (c, w) in enumerate(zip(cases, ws)):
        o = obs[c["id"]]
        if o["panics"]: ctx.violation("panic: %s" % json.dumps(o["panics"])[:400], dict(input=c, world=w)); continue
        recs.append(dict(world=w, asks=c["asks"], obs=o["has"])); at.append(i)
    ctx.count("asks", sum(len(r["asks"]) for r in recs)); ctx.count("crds_asked_for_and_made", sum(len(r["obs"][-1]["crds"]) for r in recs)); ctx.count("crds_without_all_versions", sum(1 for r in recs for c in r["obs"][-1]["crds"] if len(c["versions"]) < sum(1 for p in r["world"]["pkgs"] if p["group"] == [c["group"]] and c["kind"] in p["types"])))
    for i, why in judge(ctx, "ParserConf", recs):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i]["asks"])[:600]), dict(input=cases[at[i]], world=ws[at[i]], observed=recs[i]["obs"]))
    if not ctx.violations and not ctx.replay:
        bad = []
        for k, r in enumerate(x for x in recs if x["obs"][-1]["crds"]):
            if k >= 8: break
            b = json.loads(json.dumps(r)); h = b["obs"][-1]
            if k % 4 == 0: h["crds"][0]["versions"] = h["crds"][0]["versions"] + ["v7"]
            elif k % 4 == 1: h["schemas"].pop()
            elif k % 4 == 2: h["flats"].pop()
            else: h["errs"] += 1
            bad.append(b)
        demand_rejected(ctx, "ParserConf", bad, "an answer altered")
    for c, r in list(zip(cases, recs))[:2]: ctx.sample(dict(files=c["files"], asks=c["asks"], observed=r["obs"][-1]))
