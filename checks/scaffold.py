"""T01: scaffolded types (pkg/typescaffold, cmd/type-scaffold)."""
import json, re
from vlib import *

KINDS = ["Foo", "CronJob", "HTTPRoute", "F", "A1", "Type", "FooSpec", "FooList", "String", "Metav1", "Box", "City", "Status", "Day", "IngressClass", "Foo9", "GatewayV2", "Person"]
BAD = ["", "foo", "9Foo", "1", "Foo_Bar", "foo-bar", "Foo Bar", "Foo.Bar", "FOO", "cronJob", "Foo\n", "_", "FooId", "7up", "Foo{}", " Foo", "Foo;type Bar", "Foo`", "3dPrinter"]
HELP = ["", "help", "+kubebuilder:validation:Optional", "*/ }", "}", "`", "{{.Resource.Kind}}", "// nested", "a\tb", "  indented", "type X struct {", "%s %d", "ünïcode", '"quoted"', "trailing "]
def word(rng): return "".join(rng.choice("abcdefgxyz") for _ in range(rng.choice([2, 4, 7])))
def case(rng):
    k = rng.choice(BAD) if rng.random() < .3 else rng.choice(KINDS) if rng.random() < .7 else "".join(word(rng).capitalize() for _ in range(rng.choice([1, 2, 3])))
    c = dict(kind=k, resource=rng.choice(["", "", "foos", "foobars", "my-foos", "x9", word(rng)]), namespaced=rng.random() < .5, help=[], clients=False, cli=rng.random() < .35, flags=[])
    if c["cli"]:
        f = []
        if k or rng.random() < .5: f.append(["--kind", k] if rng.random() < .5 else ["--kind=" + k])
        if c["resource"]: f.append(["--resource", c["resource"]])
        if not c["namespaced"] or rng.random() < .3: f.append(["--namespaced=" + str(c["namespaced"]).lower()])
        rng.shuffle(f); c["flags"] = [x for y in f for x in y]
    else:
        c["clients"] = rng.random() < .5
        if rng.random() < .5: c["help"] = [rng.choice(HELP) for _ in range(rng.choice([1, 1, 2, 4]))]
        if c["help"] == [""]: c["help"] = []
    return c

def T01(ctx):
    rng = ctx.rng
    cases = [dict(case(rng), id=str(i)) for i in range(4000 if ctx.thorough else 500)]
    if ctx.replay: cases = [ctx.replay["case"]["input"]]
    exe = build_driver(ctx, "scaffold"); cmd = build_cmd(ctx, "type-scaffold")
    obs = run_sharded(ctx, exe, cases, args=(cmd,))
    # what the generators make of a sample of the scaffolds
    sample = [c for c in cases if not obs[c["id"]]["err"] and not obs[c["id"]]["parse"]]
    sample = sample[:300 if ctx.thorough else 40]
    head = '// +groupName=g.test\npackage v1\n\nimport metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"\n\n'
    gobs = run_sharded(ctx, build_driver(ctx, "gen"), [dict(id=c["id"], files={"v1/t.go": head + obs[c["id"]]["text"]}, gens=["crd", "object"], reps=1, seed=1, order="keep") for c in sample], args=("-fake",)) if sample else {}
    recs = []
    for c in cases:
        o = obs[c["id"]]
        if o["panic"]: raise ImplCrash("scaffolding crashes: " + o["panic"][:500], [c["id"]])
        r = dict(kind=c["kind"], resource=c["resource"], namespaced=c["namespaced"], help=c["help"], clients=c["clients"], pascal=o["pascal"], plural=o["plural"], err=o["err"][:200], wrote=o["wrote"],
                 parse=o["parse"], check=o["check"], formatted=o["formatted"], types=o["types"], others=o["others"], ran=False, generr="", crds=[], objects=[])
        if c["id"] in gobs:
            rep = gobs[c["id"]]["reps"][0]; r["ran"] = True
            r["generr"] = "; ".join((rep["errs"] or []) + [g["err"] + g["panic"] for g in rep["gens"] if g["err"] or g["panic"]])
            fs = {g["gen"].split(":")[0]: g["files"] for g in rep["gens"]}
            for t in (fs["crd"] or {}).values():
                for d in yload_all(t):
                    r["crds"].append([d["spec"]["names"]["kind"], sorted(k for k in d["spec"]["versions"][0]["schema"]["openAPIV3Schema"]["properties"] if k in ("spec", "status"))])
            for t in (fs["object"] or {}).values(): r["objects"] += re.findall(r"^func \(in \*(\w+)\) DeepCopyObject\(\)", t, re.M)
        recs.append(r); ctx.count("scaffolds" if not o["err"] else "refusals")
    ctx.count("scaffolds generated from", len(gobs))
    for i, why in judge(ctx, "ScaffoldConf", recs):
        ctx.violation("%s: %s" % (why, {k: cases[i][k] for k in ("kind", "resource", "namespaced", "clients")}), dict(input=cases[i], observed=obs[cases[i]["id"]]))
    if not ctx.replay:
        bad = []
        for r in [r for r in recs if not r["err"]][:8]:
            r = json.loads(json.dumps(r)); k = len(bad) % 4
            if k == 0: r["types"].pop()
            elif k == 1: r["types"][2]["markers"].append("+x")
            elif k == 2: r["types"][2]["doc"] = "nothing"
            else: r["check"] = "no"
            bad.append(r)
        demand_rejected(ctx, "ScaffoldConf", bad, "altered scaffolds")
    for c in cases[:3]: ctx.sample(c)
