"""O01: headers of generated files (pkg/genall WriteYAML and the generators' headerFile and year)."""
import json, re
from vlib import *

LINE = ["Copyright", " YEAR", " YEAR", "YEAR", " YEARS", " The Authors", " (c)", "-YEAR", " Year", ":", " \u00e9\u4e16", " ---", "\t", " a", " $1", " %s", " %d%%", " \\1"]
def header(rng, code):
    c = "//" if code else "#"
    ls = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        ls.append((c + "".join(rng.choice(LINE) for _ in range(rng.randint(1, 6)))).rstrip())
        if rng.random() < .1: ls.append("")
    while ls and not ls[-1]: ls.pop()
    ls = [l if not code or l == "" or l[2:3] in (" ",) else ("// " + l[2:].lstrip()).rstrip() for l in ls]    # //x: may be directives
    if code: ls = [l + "." if l.endswith(" YEAR") else l for l in ls]       # gofmt removes space at ends of lines
    if code and rng.random() < .25: return "/*\n" + "\n".join(l[2:].strip() for l in ls) + "\n*/"
    return "\n".join(ls)

def package(rng, p):
    b = "// +groupName=%s.io\n// +versionName=v1\n" % p + ("// +kubebuilder:object:generate=true\n" if rng.random() < .7 else "") + "package %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n" % p
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        b += "// +kubebuilder:rbac:groups=%s.io,resources=%s,verbs=get;list%s\n\n" % (p, rng.choice("abc"), rng.choice(["", ",namespace=n1", ",namespace=n2"]))
    for i in range(rng.choice([0, 1, 2])):
        b += "// +kubebuilder:webhook:path=/%s%d,mutating=%s,failurePolicy=fail,groups=%s.io,resources=x,verbs=create,versions=v1,name=%s%d.x.io,sideEffects=None,admissionReviewVersions=v1\n\n" % (p, i, rng.choice(["true", "false"]), p, p, i)
    for k in rng.sample(["Ka", "Kb", "Kc"], rng.choice([0, 1, 2])):
        b += "// %s: doc\n// +kubebuilder:object:root=true\ntype %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec\"`\n}\n\n" % (k, k, k)
        b += "type %sSpec struct {\n\t// text: %s\n\tF []%s `json:\"f\"`\n}\n\n" % (k, rng.choice(["---", "a --- b", "YEAR", "x"]), rng.choice(["string", "int32"]))
    return b + "var _ metav1.TypeMeta\n"

def files(o, code):
    res = []
    for n, t in sorted(o["files"].items()):
        d = dict(name=n, text=t, pre="", rest="", docs=[], keys=[])
        if code:
            i = t.find("// Code generated"); d["pre"], d["rest"] = t[:i], t[i:]
        else:
            d["docs"] = [x for x in re.split(r"(?:^|(?<=\n))---\n", t)]
            if d["docs"] and d["docs"][0] == "": d["docs"] = d["docs"][1:]
            d["keys"] = [dict(top=sorted(x), meta=sorted(x.get("metadata") or {})) for x in yload_all(t)]
        res.append(d)
    return res

def O01(ctx):
    rng = ctx.rng
    model_check(ctx, "HeaderRun", "HeaderRun_run")
    for v in ("first", "each", "open"):
        if "Right is violated" not in tlc(ctx, "HeaderRun", "HeaderRun_" + v, ok_codes=(12,), count=False)[1]: raise CheckError("the wrong way %s should be found" % v)
    n = 400 if ctx.thorough else 60
    if ctx.replay: cases = [ctx.replay["case"]]
    else:
        cases = []
        for _ in range(n):
            fs = {"%s/t.go" % p: package(rng, p) for p in ["p1", "p2"][:rng.choice([1, 2, 2])]}
            gens, runs = [], []
            for k in range(rng.choice([3, 4, 5])):
                g = rng.choice(["rbac", "webhook", "crd", "object"]); code = g == "object"
                given = rng.random() < .9; readable = rng.random() < .85
                h = header(rng, code) if given and readable else ""
                if given and readable: fs["h/hdr%d.txt" % k] = h if code and rng.random() < .5 else h + "\n"
                year = rng.choice(["", "2031", "1999", "2020-2031", "YEAR", "x"]) if rng.random() < .8 else None
                args, want = (["roleName=r"] if g == "rbac" else []), []
                if g == "rbac": want = ["role.yaml"]
                if g == "webhook": want = ["manifests.yaml"]
                if g == "rbac" and rng.random() < .4: want = [rng.choice(["x.yaml", "a/b.yaml", "role.yaml", "R_1.txt"])]; args.append("fileName=" + want[0])
                opt = list(args)
                if given: opt.append("headerFile=@DIR@/h/hdr%d.txt" % k)
                if year is not None: opt.append('year="%s"' % year)
                rng.shuffle(opt)
                gens += [g + (":" + ",".join(args) if args else ""), g + (":" + ",".join(opt) if opt else "")]
                runs.append(dict(gen=g, code=code, given=given, readable=readable, pieces=(h if code else fs.get("h/hdr%d.txt" % k, "")).split(" YEAR"), year=year or "", want=want))
            cases.append(dict(files=fs, gens=gens, runs=runs, reps=1, subst=True))
    for i, c in enumerate(cases): c["id"] = str(i)
    exe = build_driver(ctx, "gen")
    obs = run_sharded(ctx, exe, cases)
    recs, at = [], []
    for c in cases:
        gs = obs[c["id"]]["reps"][0]["gens"]
        for k, r in enumerate(c["runs"]):
            b, h = gs[2 * k], gs[2 * k + 1]
            if b["regerr"] or h["regerr"]: raise CheckError("options refused: %s" % [b["regerr"], h["regerr"], c["gens"]])
            if b["panic"] or h["panic"]: raise ImplCrash("panic: " + (b["panic"] or h["panic"])[:1500], [c["id"]])
            rec = dict(r, base=files(b, r["code"]), out=[dict(name=n, text=t) for n, t in sorted(h["files"].items())], failed=bool(h["err"]), basefailed=bool(b["err"]))
            ctx.count("files", len(rec["out"])); recs.append(rec); at.append(c)
    for i, why in judge(ctx, "HeadersConf", recs):
        ctx.violation("%s: %s" % (why[:300], json.dumps(dict(recs[i], base=[dict(name=b["name"], text=b["text"][:300]) for b in recs[i]["base"]], out=[dict(o, text=o["text"][:500]) for o in recs[i]["out"]]))[:1800]), at[i])
    if not ctx.violations and not ctx.replay:
        bad = []
        for r in recs:
            if len(bad) >= 8 or not r["out"]: continue
            x = json.loads(json.dumps(r)); x["out"][0]["text"] = x["out"][0]["text"].replace("---\n", "--- \n", 1) if not r["code"] else x["out"][0]["text"] + " "
            bad.append(x)
        demand_rejected(ctx, "HeadersConf", bad, "altered files")
    for r in recs[:2]: ctx.sample(dict(r, base=len(r["base"])))
