import random, json
from vlib import *

def lit(rng, s):
    if s == "" or any(c in s for c in " ;,{}\"'"): return '"%s"' % s
    return '"%s"' % s if rng.random() < 0.1 else s
def lst(rng, xs):
    if len(xs) > 0 and rng.random() < 0.2 : return "{" + ",".join('"%s"' % x for x in xs) + "}"
    return ";".join(lit(rng, x) for x in xs)
def render(m, rng):
    parts = []
    for key, f in (("groups", "groups"), ("resources", "resources"), ("resourceNames", "names"), ("urls", "urls"), ("verbs", "verbs")):
        if m[f] or (f == "verbs"): parts.append("%s=%s" % (key, lst(rng, m[f])))
    if m["ns"]: parts.append("namespace=" + m["ns"])
    if rng.random() < 0.3: rng.shuffle(parts)
    return "// +kubebuilder:rbac:" + ",".join(parts)

GROUPS = ["", "core", "apps", "batch", "a.example.com", "*"]
RES = ["pods", "services", "deployments", "pods/status", "jobs", "*"]
NAMES = ["one", "two", "three"]
VERBS = ["get", "list", "watch", "create", "delete", "*"]
URLS = ["/metrics", "/healthz", "/a/b", "*"]
NSS = ["", "", "", "ns1", "ns2", "zone"]

def subset(rng, xs, lo, hi):
    k = rng.randint(lo, min(hi, len(xs)))
    return [rng.choice(xs) for _ in range(k)] if rng.random() < 0.2 else rng.sample(xs, k)

def rand_marker(rng, small):
    n = (lambda xs: xs[:3]) if small else (lambda xs: xs)
    m = dict(groups=[], resources=[], names=[], urls=[], verbs=[], ns=rng.choice(["", "ns1"] if small else NSS))
    kind = rng.random()
    if kind < 0.72:
        m["groups"] = subset(rng, n(GROUPS), 1, 3)
        m["resources"] = subset(rng, n(RES), 1, 3)
        if rng.random() < 0.25: m["names"] = subset(rng, n(NAMES), 1, 2)
    elif kind < 0.92: m["urls"] = subset(rng, n(URLS), 1, 3)
    else:
        m["groups"] = subset(rng, n(GROUPS), 0, 2); m["resources"] = subset(rng, n(RES), 0, 2); m["urls"] = subset(rng, n(URLS), 0, 2)
        m["names"] = subset(rng, n(NAMES), 0, 2)
    m["verbs"] = subset(rng, n(VERBS) if rng.random() < 0.85 else VERBS, 1, 3)
    return m

def files_for(rng, ms, spread):
    """Where marker comments may stand: anywhere in files of several packages."""
    files = {}
    if not spread:
        return {"a.go": "package a\n\n" + "".join(render(m, rng) + "\n" for m in ms) + "\n"}
    for i, m in enumerate(ms):
        f = rng.choice(["a.go", "b.go", "sub/x.go"])
        if f not in files: files[f] = "package %s\n\n" % ("a" if "/" not in f else "sub")
        r = rng.random()
        if r < 0.4: files[f] += render(m, rng) + "\n\n"
        elif r < 0.7: files[f] += render(m, rng) + "\n\n// Documentation.\ntype T%d struct {\n\tA int\n}\n\n" % i
        else: files[f] += render(m, rng) + "\n\n// Documentation.\nfunc f%d() {\n}\n\n" % i
    files.setdefault("a.go", "package a\n")
    return files

def build_cases(ctx, prop):
    rng = ctx.rng
    base = []
    out = ctx.path("rbacgen.ndjson")
    tlc(ctx, "RbacGen", env=dict(OUT=out), count=False)
    gen = [c["ms"] for c in read_nd(out)]
    base += gen
    n = 2500 if ctx.thorough else 450
    for _ in range(n):
        small = rng.random() < 0.7
        base.append([rand_marker(rng, small) for _ in range(rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 7]))])
    # markers that overlap in all but one dimension: the shape merge passes act on
    for _ in range(n):
        m0 = rand_marker(rng, True); ms = [m0]
        for _ in range(rng.choice([1, 2, 2, 3])):
            m = json.loads(json.dumps(rng.choice(ms)))
            f = rng.choice(["groups", "resources", "names", "urls", "verbs", "verbs", "ns"])
            alt = rand_marker(rng, True)
            m[f] = alt[f] if f == "ns" else (alt[f] if rng.random() < .6 else m[f] + alt[f])
            if f == "verbs" and not m[f]: m[f] = ["get"]
            ms.append(m)
        base.append(ms)
    # rules that become equal to another one only after a merge
    for _ in range(n // 3):
        tmpl = dict(groups=[rng.choice(["", "apps"])], resources=[rng.choice(["pods", "jobs"])], names=[], urls=[], verbs=[rng.choice(["list", "create"])], ns=rng.choice(["", "", "zoo"]))
        dim = rng.choice(["urls", "urls", "resources", "groups"])
        if dim == "urls": tmpl.update(groups=[], resources=[], ns="")
        vals = rng.sample({"urls": ["/a", "/b", "/c", "/healthz"], "resources": ["pods", "jobs", "nodes", "pods/status"], "groups": ["", "apps", "batch", "g.io"]}[dim], rng.choice([2, 2, 3]))
        ms = []
        for v in vals:
            m = json.loads(json.dumps(tmpl)); m[dim] = [v]; ms.append(m)
        m = json.loads(json.dumps(tmpl)); m[dim] = list(vals); m["verbs"] = rng.choice([["get", "watch"], ["get"], ["delete", "list"], ["*"]]); ms.append(m)
        if rng.random() < .3: ms.append(rand_marker(rng, True))
        base.append(ms)
    base.append([])
    ctx.cov["spec_generated_cases"] = len(gen)
    cases, groups = [], []
    for i, ms in enumerate(base):
        role = rng.choice(["manager-role", "r"])
        ids = []
        variants = 1 if prop == "R01" else 3
        for v in range(variants):
            mv = list(ms)
            if v:
                rng.shuffle(mv)
                if mv and rng.random() < 0.5: mv.insert(rng.randrange(len(mv) + 1), rng.choice(mv))
            id = "%d.%d" % (i, v)
            cases.append(dict(id=id, files=files_for(rng, mv, v == 2 or (v == 0 and rng.random() < 0.3)), gens=["rbac:roleName=" + role],
                              reps=2 if prop == "R01" else (6 if ctx.thorough else 2), seed=rng.randrange(1 << 30), order="shuffle"))
            ids.append(id)
        groups.append((ms, role, ids))
    return cases, groups

def project(text):
    docs = []
    for d in yload_all(text):
        md = d.get("metadata", {})
        docs.append(dict(kind=d["kind"], name=md.get("name", ""), ns=md.get("namespace", ""), api=d["apiVersion"],
            rules=[dict(G=r.get("apiGroups", []), R=r.get("resources", []), N=r.get("resourceNames", []), U=r.get("nonResourceURLs", []),
                        V=r.get("verbs", [])) for r in d.get("rules", [])]))
    return docs

def run(ctx, prop):
    model_check(ctx, "RbacMerge")
    if ctx.replay: groups, cases = [(ctx.replay["case"]["ms"], ctx.replay["case"]["roleName"], ["r"])], [dict(ctx.replay["case"]["input"], id="r")]
    else: cases, groups = build_cases(ctx, prop)
    exe = build_driver(ctx, "gen")
    obs = run_sharded(ctx, exe, cases)
    byid = {c["id"]: c for c in cases}
    recs, meta = [], []
    for ms, role, ids in groups:
        reps = {}
        for id in ids:
            for r in obs[id]["reps"]:
                g = r["gens"][0]
                if g["err"] or g["panic"] or r["errs"] or g["regerr"]:
                    ctx.violation("valid RBAC markers are refused: %s%s %s" % (g["err"], g["panic"], r["errs"]), dict(input=byid[id], ms=ms, roleName=role)); continue
                extra = set(g["files"]) - {"role.yaml"}
                if extra: ctx.violation("unexpected files %s" % extra, dict(input=byid[id], ms=ms, roleName=role))
                reps[g["files"].get("role.yaml", "")] = 1
        ps = [project(t) for t in sorted(reps)]
        # texts that differ only in layout would be a difference too
        recs.append(dict(ms=ms, roleName=role, reps=ps)); meta.append((ms, role, ids))
    ctx.count("marker_sets", len(groups)); ctx.count("generator_runs", sum(len(obs[c["id"]]["reps"]) for c in cases))
    for i, why in judge(ctx, "RbacConf", recs, env=dict(PROP=prop)):
        ms, role, ids = meta[i]
        ctx.violation("%s: markers %s gave %s" % (why, json.dumps(ms), json.dumps(recs[i]["reps"])[:1500]),
                      dict(input=byid[ids[0]], ms=ms, roleName=role, observed=recs[i]["reps"]))
    # binding self-test
    good = [r for r in recs if any(m["resources"] and m["groups"] and m["verbs"] for m in r["ms"]) and r["reps"] and r["reps"][0]][:6]
    corrupt = []
    for r in good:
        c = json.loads(json.dumps(r))
        if prop == "R01": c["reps"][0][0]["rules"] = c["reps"][0][0]["rules"][1:]
        else: c["reps"][0][0]["rules"][0]["V"] = ["zz"] + c["reps"][0][0]["rules"][0]["V"]
        corrupt.append(c)
    if not ctx.violations and not ctx.replay: demand_rejected(ctx, "RbacConf", corrupt, "rules removed or reordered", env=dict(PROP=prop))
    for r in recs[:3]: ctx.sample(r)

def R01(ctx): run(ctx, "R01")
def R02(ctx): run(ctx, "R02")
