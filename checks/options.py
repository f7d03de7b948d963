"""G03: command line options (pkg/genall/options.go, pkg/genall/output.go)."""
import json
from vlib import *
from schemas import canon

S = lambda *v: ("s", v); B = ("b",); I = ("i",); L = ("l",)
GENS = {"crd": ("crd.Generator", dict(ignoreUnexportedFields=B, allowDangerousTypes=B, maxDescLen=I, crdVersions=L, generateEmbeddedObjectMeta=B, headerFile=S(), year=S(), deprecatedV1beta1CompatibilityPreserveUnknownFields=B), ()),
        "rbac": ("rbac.Generator", dict(roleName=S(), headerFile=S(), year=S(), fileName=S()), ("roleName",)),
        "object": ("deepcopy.Generator", dict(headerFile=S(), year=S()), ()), "webhook": ("webhook.Generator", dict(headerFile=S(), year=S()), ()),
        "schemapatch": ("schemapatcher.Generator", dict(manifests=S(), maxDescLen=I, generateEmbeddedObjectMeta=B), ("manifests",)),
        "applyconfiguration": ("applyconfiguration.Generator", dict(headerFile=S()), ())}
FIELD = dict(manifests="manifestspath", crdVersions="crdversions")
RULES = ["dir", "none", "stdout", "artifacts"]
PKGS = ["", "/p0", "/p1", "/p2", "/p2/q"]
PATHS = {"./p0": ["/p0"], "./p1": ["/p1"], "p2/../p2/": ["/p2"], "./p2": ["/p2"], "./p2/...": ["/p2", "/p2/q"], "./...": PKGS, ".": [""], "m.test/p1": ["/p1"], "m.test/p2/...": ["/p2", "/p2/q"], "./p2/q": ["/p2/q"]}
PATHS.pop("p2/../p2/")
BAD = ["", "+", ":", "=", "crdx", "Crd", "output", "output:", "output:dir", "output:dir:", "output:bogus", "output:bogus:dir=x", "output:crd:bogus=x", "output:crd", "output:none=1", "output:none:x=1", "output:stdout:a", "output:artifacts", "output:artifacts:code=x",
       "output:artifacts:config=x,other=y", "rbac", "rbac:", "rbac:fileName=x", "rbac:roleName=a,bogus=b", "crd:bogus=1", "crd:maxDescLen=abc", "crd:maxDescLen", "crd:maxDescLen=1 2", "crd:allowDangerousTypes=maybe", "crd=1", "crd:", "crd:crdVersions={v1", "crd:year=\"2020", "object:",
       "object:foo=1", "schemapatch", "schemapatch:maxDescLen=3", "paths", "paths:", "path=./p0", "webhook:x", "applyconfiguration:year=1", "object:headerFile", "output:rbac:artifacts:config=a,b=c", "generate", "crd:maxDescLen=99999999999999999999"]

def opt(**k): return dict(dict(k="bad", name="", set="", target="", rule=dict(kind="", config="", code=""), paths=[]), **k)
def gen(rng, name):
    typ, fields, req = GENS[name]
    fs = [f for f in fields if f in req or rng.random() < .35]; rng.shuffle(fs)
    want, args = {}, []
    for f in fs:
        t = fields[f][0]
        if t == "s": v = rng.choice(["a", "some-name", "dir/f.txt", "two words", "2031", "x=y", "a:b", "a+b", ""] if f not in req else ["a", "my role", "r:s", "r+s"])
        elif t == "b": v = rng.random() < .5
        elif t == "i": v = rng.choice([0, 1, 17, -1, 100000])
        else: v = rng.choice([["v1"], ["v1", "v1beta1"], []])
        if t == "s": s = '"%s"' % v if v == "" or any(c in v for c in " :=;,") or rng.random() < .4 else v
        elif t == "b": s = "true" if v else "false"
        elif t == "i": s = str(v)
        else: s = "{" + ",".join(v) + "}" if not v or rng.random() < .5 else ";".join(v)
        args.append(f + "=" + s)
        if v not in ("", []): want[FIELD.get(f, f).lower()] = v
    return opt(k="gen", name=name, set=canon(want)), name + (":" + ",".join(args) if args else "")
def rule(rng, target):
    k = rng.choice(RULES); r = dict(kind=k, config="", code=""); a = ""
    w = lambda: rng.choice(["out", "./x/y", "/abs/d", "with space", "a.b", "a:b", "c++"])
    q = lambda s: '"%s"' % s if any(c in s for c in " :") or rng.random() < .3 else s
    if k == "dir": r["config"] = w(); a = "=" + q(r["config"])
    if k == "artifacts":
        r["config"] = w(); parts = ["config=" + q(r["config"])]
        if rng.random() < .6: r["code"] = w(); parts.append("code=" + q(r["code"]))
        rng.shuffle(parts); a = ":" + ",".join(parts)
    return opt(k="rule", target=target, rule=r), "output:" + (target + ":" if target else "") + k + a
def paths(rng):
    ps = rng.sample(sorted(PATHS), rng.choice([1, 1, 2, 3]))
    t = ";".join(ps) if len(ps) == 1 or rng.random() < .5 else "{" + ", ".join('"%s"' % p if rng.random() < .3 else p for p in ps) + "}"
    return opt(k="paths", paths=sorted({x for p in ps for x in PATHS[p]})), "paths=" + t

def case(rng):
    opts, missing = [], False
    names = rng.sample(sorted(GENS), rng.choice([0, 1, 2, 2, 3, 6]))
    opts += [gen(rng, n) for n in names]
    for n in names:
        for _ in range(rng.choice([0, 0, 1, 1, 2])): opts.append(rule(rng, n))
    for _ in range(rng.choice([0, 1, 1, 2])): opts.append(rule(rng, ""))
    for _ in range(rng.choice([0, 1, 1, 2, 3])): opts.append(paths(rng))
    x = rng.random()
    if x < .08 and names: opts.append(gen(rng, rng.choice(names)))
    elif x < .16: opts.append(rule(rng, rng.choice(sorted(GENS))))
    elif x < .36: opts.append((opt(), rng.choice(BAD)))
    elif x < .42: opts.append((opt(k="paths", paths=["?"]), rng.choice(["paths=./nowhere", "paths=./nowhere/..."]))); missing = True
    rng.shuffle(opts)
    return [o for o, _ in opts], [("+" if t[:1] != "+" and t and rng.random() < .1 else "") + t for _, t in opts], missing

TYPES = {v[0]: k for k, v in GENS.items()}
RTYPES = {"genall.OutputToDirectory": "dir", "genall.outputToNothing": "none", "genall.outputToStdout": "stdout", "genall.OutputArtifacts": "artifacts"}
def observe(o):
    gens = []
    for t, v in o["gens"]: gens.append([TYPES.get(t, t), canon({k.lower(): x for k, x in v.items() if x is not None and x != "" and x != []})])
    rules = []
    for t, v in o["rules"]:
        k = RTYPES.get(t, t)
        rules.append(dict(kind=k, config=v if k == "dir" else v["Config"] if k == "artifacts" else "", code=v["Code"] if k == "artifacts" else ""))
    return dict(rejected=o["err"] != "", listed=o["regerr"] != "", panic=o["panic"], gens=gens, rules=rules, paths=o["roots"])

def G03(ctx):
    model_check(ctx, "OptionsRun", "OptionsRunDeep" if ctx.thorough else None)
    rng = ctx.rng; cases, want = [], []
    if ctx.replay: cases, want = [ctx.replay["case"]["input"]], [ctx.replay["case"]["want"]]
    else:
        todo = [([opt()], [b], False) for b in BAD]
        for g in sorted(GENS):
            for r in range(8): todo.append((lambda a, b: ([a[0], b[0]], [a[1], b[1]], False))(gen(rng, g), rule(rng, g)))
        todo += [case(rng) for _ in range(6000 if ctx.thorough else 1100)]
        for i, (os, ts, m) in enumerate(todo):
            cases.append(dict(id=str(i), options=ts)); want.append(dict(opts=os, missing=m))
    exe = build_driver(ctx, "options")
    obs = run_sharded(ctx, exe, cases, shards=8)
    recs = [dict(w, got=observe(obs[c["id"]])) for c, w in zip(cases, want)]
    ctx.count("accepted", sum(1 for r in recs if not r["got"]["rejected"])); ctx.count("rejected", sum(1 for r in recs if r["got"]["rejected"]))
    for i, why in judge(ctx, "OptionsConf", recs):
        ctx.violation("%s: %s gave %s" % (why, json.dumps(cases[i]["options"]), json.dumps(obs[cases[i]["id"]])[:900]), dict(input=cases[i], want=want[i], observed=recs[i]["got"]))
    if not ctx.replay:
        good = [r for r in recs if not r["got"]["rejected"] and r["got"]["gens"]]; corrupt = []
        for k, r in enumerate(good[:8]):
            c = json.loads(json.dumps(r)); g = c["got"]
            if k % 4 == 0: g["rules"][0] = dict(kind="dir", config="elsewhere", code="")
            elif k % 4 == 1: g["gens"][0][1] = '{"year":"1"}'
            elif k % 4 == 2: g["paths"] = g["paths"] + ["/nowhere"]
            else: g["rejected"] = True
            corrupt.append(c)
        demand_rejected(ctx, "OptionsConf", corrupt, "altered runtimes")
    for c in cases[-3:]: ctx.sample(c["options"])
