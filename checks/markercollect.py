"""M02 (in source), M03, M04: collecting markers and documentation from packages."""
import json
from vlib import *
from markerparse import ty, run_parse

DEFNAMES = ["v:p", "v:t", "v:f", "v:pt", "v:tf", "v:pf", "v:ptf", "s:all", "e:all"]
def defs():
    ds = []
    for n in DEFNAMES:
        for t, c in ((0, "p"), (1, "t"), (2, "f")):
            k = n.split(":")[1]
            if k != "all" and c not in k: continue
            if n[0] == "v": ds.append(dict(name=n, kind="anon", strict=True, target=t, args=[dict(name="", type=ty("int"), opt=False)]))
            elif n[0] == "s": ds.append(dict(name=n, kind="struct", strict=True, target=t, args=[dict(name="n", type=ty("int"), opt=False), dict(name="w", type=ty("str"), opt=True)]))
            else: ds.append(dict(name=n, kind="empty", strict=True, target=t, args=[]))
    return ds
DEFS = defs()

class Layout:
    """A random file layout, rendered while it is made so that every marker's position is known."""
    def __init__(self, rng, fname, bad, uniq, big):
        self.rng, self.fname, self.bad, self.uniq = rng, fname, bad, uniq
        self.out, self.line = [], 1
        self.types = 0
        rng = self.rng
        self.file = dict(pre=[], doc=[], items=[], all=[])
        for _ in range(rng.choice([0, 0, 1, 2])): self.file["pre"].append(self.block("")["ms"])
        if rng.random() < .3: self.file["doc"] = self.comments("")
        self.put("package p")
        self.blank()
        if rng.random() < .3:
            doc = self.comments("") if rng.random() < .5 else []
            self.put('import _ "strings"' + self.trail()); self.blank()
            self.file["items"].append(dict(k="other", doc=doc))
        for _ in range(rng.randint(1, 9 if big else 6)):
            r = rng.random()
            if r < .3: self.file["items"].append(self.block(""))
            elif r < .65: self.file["items"].append(self.type_("", "type "))
            elif r < .8: self.file["items"].append(self.group())
            else: self.file["items"].append(self.other())
            if rng.random() < .7 or self.file["items"][-1]["k"] == "block": self.blank()
        if rng.random() < .3: self.file["items"].append(self.block(""))
    def put(self, s): self.out.append(s); self.line += 1
    def blank(self):
        if not self.out or self.out[-1] != "": self.put("")
    def marker(self, ind, extra=""):
        rng = self.rng
        n = rng.choice(DEFNAMES) if rng.random() < .93 else rng.choice(["v:none", "v", "zz", "e:al", "v:pp"])
        self.uniq[0] += 1
        t = {"v": "%s=%d" % (n, self.uniq[0]), "s": "%s:n=%d%s" % (n, self.uniq[0], rng.choice(["", ",w=x", ",w=\"y z\"", ",w= q"])), "e": n, "z": n + "=1"}[n[0]]
        if rng.random() < self.bad:
            t = {"v": rng.choice([n, n + "=x", n + "=1,2", n + "=\"7\"", n + "=1 2", n + "={"]),
                 "s": rng.choice([n, n + ":w=a", n + ":n=a", n + ":n=1,z=2", n + ":n=1,", n + ":n=1,w=\"", n + ":n"]),
                 "e": n + "=1", "z": n}[n[0]]
        lead = "//" + rng.choice([" ", " ", "", "  ", "\t"]) + "+"
        return dict(text=t, pos="%s:%d:%d" % (self.fname, self.line, len(ind) + len(extra) + 1), src=lead + t)
    def comments(self, ind):
        """A comment group (not empty): markers and prose."""
        rng = self.rng
        ms = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < .7:
                m = self.marker(ind); ms.append(m); self.file["all"].append(m); self.put(ind + m["src"])
            elif r < .9: self.put(ind + rng.choice(["// Some prose.", "// a +marker=1 inside", "//", "// TODO x"]))
            else:
                self.put(ind + "/* +v:ptf=1"); self.put(ind + "+v:ptf=2 */")
        return ms
    def block(self, ind):
        ms = self.comments(ind); self.put("")
        return dict(k="block", ms=ms)
    def trail(self):
        if self.rng.random() < .85: return ""
        return " " + self.rng.choice(["// note", "// +v:ptf=900", "// +e:all", "/* c */"])
    def fields(self, ind, depth=0):
        rng = self.rng
        body = []
        for i in range(rng.randint(0, 3)):
            if rng.random() < .45: body.append(self.block(ind))
            if rng.random() < .15: body.append(self.block(ind))
            doc = self.comments(ind) if rng.random() < .5 else []
            names = rng.choice([["A%d" % i], ["A%d" % i], ["A%d" % i, "B%d" % i], None])
            ft = rng.choice(["int", "string", "[]int", "map[string]int", "*int", "func(a int) error", "interface{}"])
            if names is None:
                names = ["#%d" % sum(len(b["names"]) for b in body if b["k"] == "field")]
                self.put(ind + "E%d" % i + self.trail())
            elif depth == 0 and rng.random() < .12:
                self.put(ind + names[0] + " struct {"); names = names[:1]
                self.fields(ind + "\t", 1)
                self.put(ind + "}")
            else: self.put(ind + ", ".join(names) + " " + ft + self.trail())
            body.append(dict(k="field", names=names, doc=doc))
        if rng.random() < .25: body.append(self.block(ind))
        return body
    def type_(self, ind, kw):
        rng = self.rng
        doc = self.comments(ind) if rng.random() < .55 else []
        self.types += 1
        name = "T%s%d" % (self.fname[0].upper(), self.types)
        r = rng.random()
        if r < .6:
            if rng.random() < .15:
                self.put(ind + kw + name + " struct{}"); return dict(k="type", name=name, doc=doc, isStruct=True, body=[])
            self.put(ind + kw + name + " struct {")
            body = self.fields(ind + "\t")
            self.put(ind + "}")
            return dict(k="type", name=name, doc=doc, isStruct=True, body=body)
        if r < .72:
            self.put(ind + kw + name + " interface {")
            if rng.random() < .5: self.comments(ind + "\t")
            self.put(ind + "\tM()"); self.put(ind + "}")
        else: self.put(ind + kw + name + " " + rng.choice(["int", "[]string", "map[string]int", "func(x int)", "*int"]) + self.trail())
        return dict(k="type", name=name, doc=doc, isStruct=False, body=[])
    def group(self):
        rng = self.rng
        doc = self.comments("") if rng.random() < .3 else []
        self.put("type (")
        body = []
        for _ in range(rng.randint(1, 3)):
            while rng.random() < .4: body.append(self.block("\t"))
            body.append(self.type_("\t", ""))
            if rng.random() < .5: self.blank()
        if rng.random() < .2: body.append(self.block("\t"))
        self.put(")")
        return dict(k="group", doc=doc, body=body)
    def other(self):
        rng = self.rng
        doc = self.comments("") if rng.random() < .4 else []
        self.types += 1
        n = "%s%d" % (self.fname[0].upper(), self.types)
        r = rng.random()
        if r < .4:
            self.put("func F%s(a int) (b string) {" % n)
            for _ in range(rng.choice([0, 1, 2])):
                self.comments("\t")
                if rng.random() < .5: self.put("")
                if rng.random() < .5: self.put("\ta++")
            self.put("\treturn"); self.put("}")
        elif r < .6: self.put("var V%s = 1" % n + self.trail())
        elif r < .8:
            self.put("const (")
            for i in range(rng.randint(1, 3)):
                if rng.random() < .4: self.comments("\t")
                self.put("\tC%s%d = %d" % (n, i, i) + self.trail())
            self.put(")")
        else:
            self.put("var W%s = struct {" % n)
            if rng.random() < .5: self.comments("\t")
            self.put("\tA int"); self.put("}{")
            if rng.random() < .5: self.comments("\t")
            self.put("\tA: 1,"); self.put("}")
        return dict(k="other", doc=doc)

def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k != "src"}
    if isinstance(x, list): return [strip(v) for v in x]
    return x

def layouts(ctx, prop, n):
    rng = ctx.rng
    cases, files0 = [], []
    for i in range(n):
        uniq = [0]
        bad = 0 if prop == "M03" else rng.choice([.05, .15, .5])
        ls = [Layout(rng, f, bad, uniq, ctx.thorough) for f in rng.choice([["a.go"], ["a.go", "b.go"], ["a.go", "b.go", "c.go"]])]
        cases.append(dict(id=str(i), defs=DEFS, reps=(6 if ctx.thorough else 3), files={l.fname: "\n".join(l.out) + "\n" for l in ls}))
        files0.append([strip(l.file) for l in ls])
    return cases, files0

def run_collect(ctx, prop):
    if ctx.replay: cases, files0 = [ctx.replay["case"]["input"]], [ctx.replay["case"]["files"]]
    else: cases, files0 = layouts(ctx, prop, (4000 if ctx.thorough else 700))
    exe = build_driver(ctx, "markers")
    obs = run_sharded(ctx, exe, cases)
    recs = []
    for c, f in zip(cases, files0):
        reps = {}
        for r in obs[c["id"]]["reps"]:
            if r["panic"]: ctx.violation("panic: " + r["panic"], dict(input=c, files=f)); continue
            bad = sorted({e.split("|")[1] for e in r["errs"] if e.split("|")[0] not in ("3", "2")})
            syntax = [e for e in r["errs"] if e.split("|")[0] == "2"]
            if syntax: raise CheckError("generated source does not parse: %s\n%s" % (syntax[:2], json.dumps(c["files"])))
            rep = dict(nodes=[] if r["err"] or r["pkgerr"] else [dict(name=n["name"], vals=n["vals"]) for n in r["nodes"]], bad=bad, failed=r["err"] and r["pkgerr"])
            if r["err"] != r["pkgerr"]: ctx.violation("the package's and the types' markers disagree about errors", dict(input=c, files=f))
            reps[json.dumps(rep, sort_keys=True)] = rep
        recs.append(dict(defs=DEFS, files=f, reps=[reps[k] for k in sorted(reps)]))
    ctx.count("packages_with_malformed_markers", sum(1 for r in recs if r["reps"] and r["reps"][0]["failed"]))
    ctx.count("packages_collected", len(recs))
    for i, why in judge(ctx, "MarkerCollectConf", recs, env=dict(PROP=prop)):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i]["reps"])[:300]), dict(input=cases[i], files=files0[i], observed=recs[i]["reps"]))
    if not ctx.violations and not ctx.replay:
        bad = []
        for r in recs:
            b = json.loads(json.dumps(r)); rep = b["reps"][0]
            if prop == "M02":
                if not rep["bad"]: continue
                rep["bad"].pop()
            else:
                vs = [n for n in rep["nodes"] if n["vals"]]
                if not vs: continue
                vs[-1]["vals"].pop()
            bad.append(b)
            if len(bad) >= 10: break
        demand_rejected(ctx, "MarkerCollectConf", bad, "a value or an error dropped", env=dict(PROP=prop))
    for c, r in list(zip(cases, recs))[:2]: ctx.sample(dict(files=c["files"], observed=r["reps"]))

def M03(ctx):
    model_check(ctx, "MarkerAssoc", "MarkerAssoc4" if ctx.thorough else None)
    run_collect(ctx, "M03")

def M02(ctx):
    model_check(ctx, "MarkerRound")
    if ctx.replay:
        return (run_collect if "files" in ctx.replay["case"] else run_parse)(ctx, "M02")
    run_parse(ctx, "M02")
    run_collect(ctx, "M02")

DOCLINES = [" Text one.", " second line", "", "", " +v:ptf=1", "+e:all", " TODO: later", " TODOs", "TODO(x) y", " ---", "--- cut", " ```", " ```yaml", " ~~~", "\tcode", "   indented", "go:generate x",
            "nolint:foo", " trailing  ", " a --- b", " see TODO", " a ```x``` b ```", " x~~~", "  TODO indented", "   --- x", "line x", " * item", "no space", " // nested", " a: b", " tab\tinside", "  ```", "export X", " key:value", "key:value", "\t+v:ptf=3"]
def doc_comment(rng):
    block = rng.random() < .25
    n = rng.randint(1, 8)
    ls = [rng.choice(DOCLINES) for _ in range(n)]
    if block and ls[0].startswith("line"): ls[0] = " Text one."          # /*line is a compiler directive
    if not block and rng.random() < .3: ls = [l for l in ls for _ in range(rng.choice([1, 1, 2]))]
    return block, ls
def render_doc(ind, block, ls):
    if block: return ind + "/*" + "\n".join(ls) + "*/\n"
    return "".join(ind + "//" + l + "\n" for l in ls)

def M04(ctx):
    model_check(ctx, "MarkerDocRun")
    rng = ctx.rng
    cases, docs0 = [], []
    if ctx.replay: cases, docs0 = [ctx.replay["case"]["input"]], [ctx.replay["case"]["docs"]]
    else:
        for i in range(3000 if ctx.thorough else 500):
            src, docs = "package p\n\n", {}
            for t in range(rng.randint(1, 4)):
                grouped = rng.random() < .3
                gdoc = None
                if grouped:
                    if rng.random() < .3: src += "// Group doc, of no type.\n"
                    src += "type (\n"
                ind = "\t" if grouped else ""
                if rng.random() < .2: src += ind + "// A free comment.\n\n"
                name = "T%d" % t
                if rng.random() < .8:
                    b, ls = doc_comment(rng); docs[name] = (b, ls); src += render_doc(ind, b, ls)
                src += ind + ("" if grouped else "type ") + name + " struct {\n"
                for f in range(rng.randint(0, 3)):
                    if rng.random() < .2: src += ind + "\t// A free comment.\n\n"
                    nm = "F%d" % f
                    if rng.random() < .7:
                        b, ls = doc_comment(rng); docs[name + "." + nm] = (b, ls); src += render_doc(ind + "\t", b, ls)
                    src += ind + "\t" + nm + " int" + rng.choice(["", " // trailing", ""]) + "\n"
                src += ind + "}\n" + (")\n" if grouped else "") + rng.choice(["", "\n"])
            cases.append(dict(id=str(i), defs=DEFS, reps=1, files={"a.go": src})); docs0.append(docs)
    exe = build_driver(ctx, "markers")
    obs = run_sharded(ctx, exe, cases)
    recs = []
    for c, docs in zip(cases, docs0):
        ds = []
        r = obs[c["id"]]["reps"][0]
        if any(e.startswith("2|") for e in r["errs"]): raise CheckError("generated source does not parse: %s\n%s" % (r["errs"][:2], c["files"]))
        for n in r["nodes"]:
            if not n["name"]: continue
            b, ls = docs.get(n["name"], (False, []))
            ds.append(dict(block=b, lines=ls, doc=n["doc"], name=n["name"]))
        recs.append(dict(docs=ds))
    ctx.count("comments", sum(len(r["docs"]) for r in recs))
    for i, why in judge(ctx, "MarkerDocConf", recs):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:900]), dict(input=cases[i], docs=docs0[i], observed=recs[i]))
    if not ctx.violations and not ctx.replay:
        bad = []
        for r in recs:
            b = json.loads(json.dumps(r)); ds = [d for d in b["docs"] if "\n" in d["doc"]]
            if ds: ds[0]["doc"] = "\n".join(ds[0]["doc"].split("\n")[1:]); bad.append(b)
            if len(bad) >= 10: break
        demand_rejected(ctx, "MarkerDocConf", bad, "first line dropped")
    for r in recs[:2]: ctx.sample(r)
