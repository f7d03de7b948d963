"""H02: help generated from documentation (cmd/helpgen)."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from headers import header

WORDS = ["does", "is", "a", "the", "it", "\"q\"", "`code`", "back\\slash", "100%", "%s", "\u00e9\u4e16", "x.", "end.", "a:b", "--- no", "N", "TODO no", "$1", "{}", "<b>"]
def line(rng, name):
    w = [rng.choice(WORDS) for _ in range(rng.randint(0, 5))]
    r = rng.random()
    if r < .5: w = [name] + w
    elif r < .6: w = [name + rng.choice(["s", ".", ":", ","])] + w
    elif r < .65: w = [name.lower()] + w
    elif r < .7: w = [rng.choice(["The", "A"]), name] + w
    elif r < .73: w = [name, ""] + w
    return " ".join(w).strip() or rng.choice(["text", name])
def doc(rng, name):
    """Lines of documentation without the comment syntax; whether it is a block."""
    ls = [line(rng, name)]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        ls.append("" if rng.random() < .3 else ("  " if rng.random() < .1 else "") + line(rng, name))
    if rng.random() < .1: ls.append("TODO(x): later")
    if rng.random() < .1: ls += ["---", "internal"]
    return ls if rng.random() < .85 else []
def comment(rng, ls, marks, ind):
    """The comment, as lines the specification reads (block or not) and as text."""
    if ls and rng.random() < .15:
        block = True; body = ["", *[" " + l for l in ls], ""]
        text = "".join(ind + "// " + m + "\n" for m in marks) + ("\n" if marks else "") + ind + "/*\n" + "".join(ind + l + "\n" for l in ls) + ind + "*/\n"
        return text, True, ["", *ls, ""]
    at = rng.choice(["before", "first", "last", "apart"]); m = ["// " + x for x in marks]; d = ["//" + (" " + l if l else "") for l in ls]
    out = {"before": m + ["//"] + d if m and d else m + d, "first": m + d, "last": d + m, "apart": m + [""] + d if m and d else m + d}[at]
    return "".join((ind + x if x else "") + "\n" for x in out), False, [x[2:] for x in out if x.startswith("//")]

def package(rng, p):
    n = rng.choice([1, 2, 3, 5, 8]); types, files = [], {}
    def mark():
        c = rng.choice([None, "", "CRD", "CRD validation", "a b", "x\"y", "Web\\hook", "object"])
        m = "+controllertools:marker:generateHelp"
        return (m, "") if c is None else (m + ":category=" + (json.dumps(c) if rng.random() < .6 or c in ("",) or any(ch in c for ch in "\"\\ ") else c), c)
    text = {f: "package %s\n\n" % p for f in rng.choice([["a.go"], ["a.go", "b.go"]])}
    anymark = rng.random() < .85
    for i in range(n):
        name = rng.choice(["T", "Marker", "t", "N", "Opt"]) + (str(i) if i or rng.random() < .5 else "")
        if any(t["name"] == name for t in types): name += "x%d" % i
        marked = anymark and rng.random() < .7; ms, cat = [], ""
        if marked: m, cat = mark(); ms.append(m)
        if rng.random() < .2: ms.append("+other:marker=1")
        rng.shuffle(ms)
        c, block, lines = comment(rng, doc(rng, name), ms, "")
        fields = []; k = rng.random()
        if k < .25: body = rng.choice(["string", "[]string", "map[string]int", "[2]bool", "func()", "int32", "chan int"])
        else:
            ls, used = [], 0
            for _ in range(rng.choice([0, 1, 2, 3, 5])):
                used += 1; f = rng.choice(["Name", "Value", "F", "u", "Type"]) + str(used); fs = [f]
                if rng.random() < .15: fs.append(f + "b")
                fc, fb, fl = comment(rng, doc(rng, f), ["+optional"] if rng.random() < .2 else [], "\t")
                if "\n\n" in fc: fc, fb, fl = comment(rng, ["plain"], [], "\t")      # comments apart are those of whatever is around
                ls.append(fc + "\t%s %s%s\n" % (", ".join(fs), rng.choice(["string", "*int", "[]string", "map[string]string", "interface{}"]), rng.choice(["", ' `marker:",optional"`'])))
                for x in fs: fields.append(dict(name=x, block=fb, lines=fl))
            body = "struct {\n" + "".join(ls) + "}"
        f = rng.choice(sorted(text))
        if rng.random() < .2 and "\n\n" not in c:
            text[f] += "type (\n" + "".join("\t" + x + "\n" for x in c.rstrip("\n").split("\n") if c) + "\t%s %s\n)\n\n" % (name, body)
        else: text[f] += c + "type %s %s\n\n" % (name, body)
        types.append(dict(name=name, marked=marked, category=cat, block=block, lines=lines, fields=fields))
    if rng.random() < .3: text[sorted(text)[0]] += "func Fn() {\n\t// +controllertools:marker:generateHelp\n\ttype Local struct{}\n\tvar _ Local\n}\n"
    return text, types

MAIN = '''package main
import (
	"encoding/json"
	"os"
	"sigs.k8s.io/controller-tools/pkg/markers"
%s)
type helper interface{ Help() *markers.DefinitionHelp }
type entry struct {
	Pkg string `json:"pkg"`
	Name string `json:"name"`
	Summary string `json:"summary"`
	Details string `json:"details"`
	Category string `json:"category"`
	Deprecated bool `json:"deprecated"`
	Fields [][3]string `json:"fields"`
}
func main() {
	var out []entry
	for _, t := range []struct{ p, n string; v any }{
%s	} {
		h, ok := t.v.(helper)
		if !ok { continue }
		x := h.Help()
		e := entry{Pkg: t.p, Name: t.n, Summary: x.Summary, Details: x.Details, Category: x.Category, Deprecated: x.DeprecatedInFavorOf != nil, Fields: [][3]string{}}
		for k, v := range x.FieldHelp { e.Fields = append(e.Fields, [3]string{k, v.Summary, v.Details}) }
		out = append(out, e)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
'''
def H02(ctx):
    rng = ctx.rng
    model_check(ctx, "HelpGenRun", "HelpGenRun_run")
    for v in ("prefix", "every", "second"):
        if "Right is violated" not in tlc(ctx, "HelpGenRun", "HelpGenRun_" + v, ok_codes=(12,), count=False)[1]: raise CheckError("the wrong way %s should be found" % v)
    exe = build_cmd(ctx, "helpgen")
    n, ng = (400, 12) if ctx.thorough else (72, 6)
    if ctx.replay: c = ctx.replay["case"]; pk = {c["id"]: (c["text"], c["types"])}; groups = [(c["opts"], [c["id"]])]
    else:
        pk = {"p%d" % i: package(rng, "p%d" % i) for i in range(n)}; ids = sorted(pk); groups = []
        for g in range(ng):
            h = rng.random() < .8; h = header(rng, True) if h else ""
            groups.append((dict(header=h, nl=rng.choice(["", "\n"]), year=rng.choice([None, "2031", " 2020", "x"])), ids[g::ng]))
    mod = ctx.path("hg"); os.makedirs(mod)
    open(mod + "/go.mod", "w").write("module m.test\n\ngo 1.22\n")
    for p, (text, _) in pk.items():
        os.makedirs(mod + "/" + p)
        for f, t in text.items(): open(mod + "/%s/%s" % (p, f), "w").write(t)
    def generate(g):
        o, ps = groups[g]; opt = []
        if o["header"]: open(mod + "/h%d.txt" % g, "w").write(o["header"] + o["nl"]); opt.append("headerFile=h%d.txt" % g)
        if o["year"] is not None: opt.append('year="%s"' % o["year"])
        return subprocess.run([exe, "generate" + (":" + ",".join(opt) if opt else ""), *["paths=./" + p for p in ps]], cwd=mod, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True, timeout=300)
    def case(p, o): return dict(id=p, text=pk[p][0], types=pk[p][1], opts=o)
    with ThreadPoolExecutor(6) as ex: res = list(ex.map(generate, range(len(groups))))
    for (o, ps), r in zip(groups, res):
        if r.returncode:
            if "panic:" in r.stderr: ctx.violation("helpgen crashes: " + r.stderr[:1000], case(ps[0], o), key="crash")
            else: ctx.violation("helpgen fails on valid packages: " + r.stderr[-600:], dict(case(ps[0], o)))
    if ctx.violations: return
    # compile what there is, as packages of the repository
    base = "pkg/schemapatcher/zzverif/hg"; over = {}
    sub = "sigs.k8s.io/controller-tools/" + base
    for p in pk:
        for f in os.listdir(mod + "/" + p): over["%s/%s/%s/%s" % (REPO, base, p, f)] = mod + "/%s/%s" % (p, f)
        over["%s/%s/%s/zz_all.go" % (REPO, base, p)] = mod + "/%s.all" % p
        open(mod + "/%s.all" % p, "w").write("package %s\nvar All = map[string]any{%s}\n" % (p, ", ".join('"%s": *new(%s)' % (t["name"], t["name"]) for t in pk[p][1])))
    open(mod + "/main.txt", "w").write(MAIN.replace("\tfor _, t := range []struct{ p, n string; v any }{\n%s\t} {\n", "\tfor p, all := range map[string]map[string]any{\n%s\t} { for n, v := range all {\n\t\tt := struct{ p, n string; v any }{p, n, v}\n").replace("\t\tout = append(out, e)\n\t}\n", "\t\tout = append(out, e)\n\t} }\n")
        % ("".join('\t"%s/%s"\n' % (sub, p) for p in sorted(pk)), "".join('\t\t"%s": %s.All,\n' % (p, p) for p in sorted(pk))))
    over["%s/%s/main/main.go" % (REPO, base)] = mod + "/main.txt"
    json.dump({"Replace": over}, open(mod + "/overlay.json", "w"))
    b = subprocess.run(["go", "build", "-overlay", mod + "/overlay.json", "-o", mod + "/x", "./" + base + "/main"], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if b.returncode:
        bad = sorted({l.split(":")[0].split("/")[-2] for l in b.stderr.splitlines() if "zz_generated" in l and "/" in l.split(":")[0]} & set(pk))
        if not bad: raise CheckError("the packages do not compile: " + b.stderr[:3000])
        o = next(o for o, ps in groups if bad[0] in ps)
        ctx.violation("what helpgen made does not compile: " + b.stderr[:1000], case(bad[0], o)); return
    helps = json.loads(subprocess.run([mod + "/x"], capture_output=True, text=True, check=True).stdout) or []
    recs, at = [], []
    for o, ps in groups:
        for p in ps:
            f = mod + "/%s/zz_generated.markerhelp.go" % p; made = os.path.exists(f)
            recs.append(dict(id=p, types=pk[p][1], made=made, text=open(f).read() if made else "", pieces=o["header"].split(" YEAR"), year=o["year"] or "", helps=[h for h in helps if h["pkg"] == p])); at.append(case(p, o))
            ctx.count("help_of_types", len(recs[-1]["helps"]))
    for i, why in judge(ctx, "HelpGenConf", recs): ctx.violation(why[:1500], at[i])
    if not ctx.violations and not ctx.replay:
        bad = []
        for r in recs:
            h = [h for h in r["helps"] if h["summary"]]
            if len(bad) >= 8 or not h: continue
            x = json.loads(json.dumps(r)); y = next(y for y in x["helps"] if y["name"] == h[0]["name"]); k = len(bad) % 3
            if k == 0: y["summary"] = y["summary"][1:]
            elif k == 1: y["category"] += "x"
            else: x["helps"].remove(y)
            bad.append(x)
        demand_rejected(ctx, "HelpGenConf", bad, "altered help")
        # malformed markers are reported
        os.makedirs(mod + "/bad")
        for t in ["bogus=1", "category={a}", "category=\"x"]:
            open(mod + "/bad/a.go", "w").write("package bad\n\n// +controllertools:marker:generateHelp:%s\ntype T struct{}\n" % t)
            r = subprocess.run([exe, "generate", "paths=./bad"], cwd=mod, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True, timeout=300)
            if r.returncode != 1 or "a.go:3" not in r.stderr or os.path.exists(mod + "/bad/zz_generated.markerhelp.go"): ctx.violation("a malformed marker (%s) is not reported: status %d, %s" % (t, r.returncode, r.stderr[:400]), dict(id="bad", text={}, types=[], opts={}))
        open(mod + "/bad/a.go", "w").write("package bad\n\n// +controllertools:marker:generateHelp\ntype T struct{}\n")
        for o, name in [("headerFile=nothing.txt", "nothing.txt"), ("headerFile=bad", "bad")]:
            r = subprocess.run([exe, "generate:" + o, "paths=./bad"], cwd=mod, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True, timeout=300)
            if r.returncode != 1 or name not in r.stderr or os.path.exists(mod + "/bad/zz_generated.markerhelp.go"): ctx.violation("a header that cannot be read (%s) is not reported: status %d, %s" % (o, r.returncode, r.stderr[:400]), dict(id="bad", text={}, types=[], opts={}))
        for o in ["generate:bogus=1", "generating", "generate:year={a}"]:
            r = subprocess.run([exe, o, "paths=./bad"], cwd=mod, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True, timeout=300)
            if r.returncode != 1 or "panic:" in r.stderr or not r.stderr or os.path.exists(mod + "/bad/zz_generated.markerhelp.go"): ctx.violation("a wrong option (%s) is not reported: status %d, %s" % (o, r.returncode, r.stderr[:400]), dict(id="bad", text={}, types=[], opts={}))
    for r in recs[:1]: ctx.sample(dict(id=r["id"], types=len(r["types"]), helps=r["helps"][:1]))
