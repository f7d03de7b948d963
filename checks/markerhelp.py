"""H01: what the help says about markers (pkg/markers/{reg,help}.go, pkg/genall/help, cmd/controller-gen)."""
import json, re, subprocess
from vlib import *

GOOD = dict(int=["3", "-7"], int32=["4"], namedint=["5"], float64=["2.5", "3"], string=["abc", '"a b"'], namedstring=["abc"], bool=["true", "false"], any=["abc", "3"], raw=["x"])
def good(rng, t, nested=False):
    if t["k"] == "ptr": return good(rng, t["e"][0], nested)
    if t["k"] == "slice": return "{" + ",".join(good(rng, t["e"][0], True) for _ in range(rng.choice([1, 2]))) + "}"
    if t["k"] == "map": return "{" + ",".join("%s: %s" % (k, good(rng, t["e"][0], True)) for k in rng.sample("xyz", rng.choice([1, 2]))) + "}"
    return rng.choice(GOOD[t["k"]])
def wrong(rng, t):
    if t["k"] == "ptr": return wrong(rng, t["e"][0])
    return dict(int="abc", int32="abc", namedint="x.y", float64="abc", bool="maybe").get(t["k"])
def T(k, *e): return dict(k=k, e=list(e))
def typ(rng, depth=0, bad=True):
    x = rng.random()
    if x < .6 or depth > 1: return T(rng.choice(["int", "int32", "namedint", "float64", "string", "namedstring", "bool", "any"]))
    if x < .75: return T("slice", typ(rng, depth + 1, bad))
    if x < .83: return T("map", typ(rng, depth + 1, bad))
    if x < .93 and depth == 0: return T("ptr", rng.choice([T("string"), T("bool"), T("int"), T("float64"), T("slice", T("string"))] + ([T("any"), T("ptr", T("int"))] if bad else [])))
    if x > .97 and bad: return T(rng.choice(["int64", "struct", "intmap"]))
    return T("string")
FIELDS = ["Name", "Foo", "URL", "FooBar", "JSONPath", "X", "hidden", "Abc9"]
def defn(rng):
    d = dict(name=rng.choice(["a", "k:b", "k:c:d", "e-f", "B", "zz"]), target=rng.choice(["package", "type", "field"]), struct=rng.random() < .6, fields=[], type=T("none"), opt=False)
    if d["struct"]:
        used = set()
        for f in rng.sample(FIELDS, rng.choice([0, 1, 1, 2, 3, 4])):
            tag = rng.choice([[], [], [""], [",optional"], ["other"], ["oth,optional"], [",omitempty"], [",x,optional"], ["optional"]])
            n = tag and tag[0].split(",")[0] or f[0].lower() + f[1:]
            if n in used: continue
            used.add(n); d["fields"].append(dict(name=f, type=typ(rng), tag=tag))
            if rng.random() < .02: d["fields"][-1]["type"] = T("raw")
    else:
        d["type"] = T("raw") if rng.random() < .08 else typ(rng)
        if d["type"]["k"] == "struct": d["type"] = T("int64")
    return d
def text(rng, d): return rng.choice(["", d + " text.", "says \"%s\"" % d])
def help_(rng, d):
    fs = {}
    for f in d["fields"]:
        if rng.random() < .8: fs[f["name"]] = dict(summary=text(rng, f["name"]), details=text(rng, "more"))
    if rng.random() < .3: fs["Gone"] = dict(summary="x", details="")
    return dict(summary=text(rng, d["name"]), details=text(rng, "d"), category=rng.choice(["", "CRD", "b cat", "Z"]), deprecated=rng.choice([[], [], [], [""], ["new"]]), fields=fs)
def usable(d):
    def ok(t): return t["k"] in GOOD or (t["k"] in ("slice", "map") and ok(t["e"][0])) or (t["k"] == "ptr" and t["e"][0]["k"] not in ("ptr", "any", "raw") and ok(t["e"][0]))
    return all(ok(f["type"]) and f["type"]["k"] != "raw" for f in d["fields"] if f["name"][0].isupper()) if d["struct"] else ok(d["type"])
def argname(f): return f["tag"][0].split(",")[0] if f["tag"] and f["tag"][0].split(",")[0] else f["name"][0].lower() + f["name"][1:]
def probes(rng, defs, n, skip=()):
    res, spec = [], []
    cand = [i for i, d in enumerate(defs) if usable(d) and i not in skip]
    for _ in range(n if cand else 0):
        i = rng.choice(cand); d = defs[i]; given = []; parts = []
        if not d["struct"]:
            if d["type"]["k"] == "raw" or rng.random() < .25: txt = "" ; given = []
            else:
                w = wrong(rng, d["type"]) if rng.random() < .4 else None
                txt = "=" + (w or good(rng, d["type"])); given = [["", w is None]]
            if d["type"]["k"] == "raw": continue
        else:
            fs = [f for f in d["fields"] if f["name"][0].isupper()]
            p = rng.choice([1, 1, .8, .4])
            opt = lambda f: "optional" in (f["tag"][0].split(",")[1:] if f["tag"] else []) or f["type"]["k"] == "ptr"
            for f in fs:
                if rng.random() < (p if not opt(f) else .5):
                    w = wrong(rng, f["type"]) if rng.random() < .15 else None
                    parts.append(argname(f) + "=" + (w or good(rng, f["type"]))); given.append([argname(f), w is None])
            if rng.random() < .15 or not fs and rng.random() < .5: parts.append("nope=1"); given.append(["nope", True])
            x = list(zip(parts, given)); rng.shuffle(x); parts = [a for a, _ in x]; given = [b for _, b in x]
            txt = ":" + ",".join(parts) if parts else ""
        res.append(dict(i=i, text="+" + d["name"] + txt)); spec.append({"def": i + 1, "given": given})
    return res, spec

def tstr(a): return "[]" + tstr(a["itemType"]) if a["type"] == "slice" else "map[string]" + tstr(a["itemType"]) if a["type"] == "map" else a["type"]
def docs(j):
    return [dict(category=g["category"], markers=[dict(name=m["name"], target=m["target"], summary=m["summary"], details=m.get("details", ""), category=m["category"],
                 deprecated=[m["deprecatedInFavorOf"]] if m.get("deprecatedInFavorOf") is not None else [],
                 fields=[[f["name"], tstr(f), f["optional"], f["summary"], f.get("details", "")] for f in m.get("fields") or []]) for m in g["markers"]]) for g in j]
def printed(o):
    """the words of what is printed, and where the rows' second cells begin"""
    j = o["docs"]; words = {}
    def add(t): words["k" + t] = t.split()
    for g in j:
        add(g["category"])
        for m in g["markers"]:
            add(m["summary"]); add(m.get("details", "")); add(m["target"])
            if m.get("deprecatedInFavorOf"): add(m["deprecatedInFavorOf"])
            for f in m.get("fields") or []: add(f["summary"]); add(f.get("details", ""))
    res = []
    for g, (short, full, brief) in zip(j, o["print"]):
        rows = [l for l in short.split("\n") if l.startswith("+")]
        res.append(dict(summary=short.split(), rows=[l.split() for l in rows], at=sorted({m.end() if (m := re.search(r"\s{2,}(?=\S)", l)) else -1 for l in rows}), full=full.split(), brief=brief.split()))
    return words, res
def helps(h): return [dict(x, fields=[[k, v["summary"], v["details"]] for k, v in x["fields"].items()]) for x in h]

def random_case(rng):
    defs, ops, hs = [], [], []
    for i in range(rng.choice([1, 3, 5, 8, 12])):
        d = defn(rng); defs.append(d); ops.append(dict(op="def", **{"def": d})); hs.append([])
        if rng.random() < .8: h = help_(rng, d); ops.append(dict(op="help", i=i, help=h)); hs[i] = [h]
        if rng.random() < .15: ops.append(dict(op="reg", i=rng.randrange(len(defs))))
        if rng.random() < .1: k = rng.randrange(len(defs)); h = help_(rng, defs[k]); ops.append(dict(op="help", i=k, help=h)); hs[k] = [h]
    ok = [usable(d) for d in defs]
    order, n = [], 0
    for o in ops:
        if o["op"] == "def":
            n += 1
            if ok[n - 1]: order.append(n)
        elif o["op"] == "reg" and ok[o["i"]]: order.append(o["i"] + 1)
    ps, sp = probes(rng, defs, 6)
    return dict(ops=ops, probes=ps), dict(defs=defs, ops=order, helps=[helps(h) for h in hs], probes=sp, option=False, own=[[] for _ in defs], summary=[], long=[])

GENS = ["crd", "webhook", "rbac:roleName=x", "object", "schemapatch:manifests=x", "applyconfiguration"]
def shown(stderr):
    res = []
    for l in stderr.splitlines():
        if l.startswith("+"):
            c = re.split(r"\s\s+", l.strip()); res.append([c[0], c[1] if len(c) > 1 else ""])
    return res

def H01(ctx):
    rng = ctx.rng
    model_check(ctx, "HelpRun", "HelpRun_run")
    if ctx.thorough: model_check(ctx, "HelpRun", "HelpRun_deep")
    if "OneListing is violated" not in tlc(ctx, "HelpRun", "HelpRun_naive", ok_codes=(12,), count=False)[1]: raise CheckError("the naive listing should depend on the order")
    exe = build_driver(ctx, "help"); cg = build_cmd(ctx, "controller-gen")
    cases, want = [], []
    for i in range(3000 if ctx.thorough else 300):
        c, w = random_case(rng); cases.append(dict(c, id="r%d" % i)); want.append(w)
    if ctx.replay and "input" in ctx.replay["case"]: cases, want = [ctx.replay["case"]["input"]], [ctx.replay["case"]["want"]]
    obs = run_driver(ctx, exe, cases)
    recs, src = [], []
    def rec(c, w, o):
        if o["panic"]: raise ImplCrash("help panics: " + o["panic"][:1500], [c["id"]])
        recs.append(dict(w, ok=o["ok"], docs=docs(o["docs"]), same=o["same"], found=o["found"], accept=o["accept"])); recs[-1]["words"], recs[-1]["print"] = printed(o); src.append((c, w, o))
        ctx.count("markers listed", sum(len(g["markers"]) for g in o["docs"])); ctx.count("uses probed", len(o["accept"]))
    for c, w in zip(cases, want): rec(c, w, obs[c["id"]])
    # the markers and options of the command
    combos = [[g] for g in GENS] + [rng.sample(GENS, rng.choice([2, 3, 4, 6])) for _ in range(20 if ctx.thorough else 4)] + [GENS]
    real = [dict(id="g%d" % i, gens=g) for i, g in enumerate(combos)] + [dict(id="options", options=True)]
    first = run_driver(ctx, exe, real, name="first")
    for c in real:
        f = first[c["id"]]
        custom = [i for i, x in enumerate(f["custom"]) if x]
        # markers that the last generator overrides keep that generator's help
        over = any(g.startswith("applyconfiguration") for g in c.get("gens", []))
        ps, sp = probes(rng, f["defs"], 60, skip=custom)
        c["probes"] = ps
        f["want"] = dict(defs=f["defs"], ops=list(range(1, len(f["defs"]) + 1)), helps=[helps(h) for h in f["help"]], probes=sp, option=bool(c.get("options")), summary=[], long=[],
                         own=[[] if not h or over and d["name"] == "kubebuilder:resource" else [h[0]["summary"], "for array items " + h[0]["summary"]] for d, h in zip(f["defs"], f["helps"])])
    second = run_driver(ctx, exe, real, name="second")
    for c in real:
        w, o = first[c["id"]]["want"], second[c["id"]]
        rec(c, w, o)
        # the command says the same, every time
        args = c.get("gens", [])
        js = [subprocess.run([cg, *args, "-hhhh" if w["option"] else "-wwww"], capture_output=True, text=True, cwd=ctx.tmp, env=goenv()) for _ in range(4)]
        short = subprocess.run([cg, *args, "-h" if w["option"] else "-w"], capture_output=True, text=True, cwd=ctx.tmp, env=goenv())
        long = [subprocess.run([cg, *args, ("-h" if w["option"] else "-w") + k], capture_output=True, text=True, cwd=ctx.tmp, env=goenv()) for k in (("hh", "h") if w["option"] else ("ww", "w"))]
        fails = [j for j in js + [short] + long if j.returncode or "[{" not in js[0].stdout]
        if fails: ctx.violation("help fails: %s, exit %d: %s" % (fails[0].args[1:], fails[0].returncode, fails[0].stderr[-800:]), dict(input=c, want=w, observed=fails[0].stderr[-3000:])); continue
        tail = [j.stdout[j.stdout.index("[{"):] for j in js]
        o2 = dict(o, docs=json.loads(tail[0]), same=len(set(tail)) == 1)
        rec(c, dict(w, summary=[shown(short.stderr)], long=[x.stderr.split() for x in long]), o2)
        ctx.count("help outputs of the command", len(js) + 1)
    for i, why in judge(ctx, "HelpConf", recs):
        c, w, o = src[i]
        ctx.violation("%s: %s" % (why, c.get("gens") or c["id"]), dict(input=c, want=w, observed=o))
    if not ctx.replay:
        bad = []
        for r in [r for r in recs if sum(len(g["markers"]) for g in r["docs"]) > 2][:9]:
            r = json.loads(json.dumps(r)); k = len(bad) % 3
            if k == 0: r["docs"][0]["markers"].pop()
            elif k == 1: r["same"] = False
            else:
                m = r["docs"][-1]["markers"][0]; m["fields"].append(["zz", "int", True, "", ""])
            bad.append(r)
        demand_rejected(ctx, "HelpConf", bad, "altered listings")
    for c in cases[:2]: ctx.sample(c)
