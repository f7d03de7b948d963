"""D01, D02: generated deep copy code (pkg/deepcopy)."""
import json, os, re, subprocess
from vlib import *

BASICS = ["string", "string", "int", "int32", "int64", "bool", "float64", "byte", "uint", "complex128", "rune"]
WORDS = ["in", "out", "key", "val", "i", "c", "x", "clone", "inVal", "outVal", "default", "string", "nil", "len", "make", "func", "runtime", "v1", "v1beta1", "1", "2v", "go-x", "a.b", "error", "new", "p"]
OBJ = "k8s.io/apimachinery/pkg/runtime.Object"
CP = "func zzcp(s []string) []string {\n\tif s == nil {\n\t\treturn nil\n\t}\n\tr := make([]string, len(s))\n\tcopy(r, s)\n\treturn r\n}\n"
def manual(name, form):
    """Types with own copying methods: text, kind, methods."""
    st = "struct {\n\tCopies int\n\tS []string\n}"
    new = "{Copies: in.Copies + 1, S: zzcp(in.S)}"
    return {
     "ManP": (st, "struct", {"DeepCopy": "func (in *%s) DeepCopy() *%s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\treturn &%s%s\n}\n" % (name, name, name, new)}),
     "ManV": (st, "struct", {"DeepCopy": "func (in %s) DeepCopy() %s {\n\treturn %s%s\n}\n" % (name, name, name, new)}),
     "ManI": (st, "struct", {"DeepCopyInto": "func (in *%s) DeepCopyInto(out *%s) {\n\t*out = %s%s\n}\n" % (name, name, name, new)}),
     "ManJ": (st, "struct", {"DeepCopyInto": "func (in %s) DeepCopyInto(out *%s) {\n\t*out = %s%s\n}\n" % (name, name, name, new)}),
     "ManB": (st, "struct", {"DeepCopy": "func (in *%s) DeepCopy() *%s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\treturn &%s%s\n}\n" % (name, name, name, new), "DeepCopyInto": "func (in *%s) DeepCopyInto(out *%s) {\n\t*out = %s%s\n}\n" % (name, name, name, new)}),
     "RefM": ("map[string]string", "map", {"DeepCopyInto": "func (in %s) DeepCopyInto(out *%s) {\n\tif in == nil {\n\t\t*out = nil\n\t\treturn\n\t}\n\t*out = %s{}\n\tfor k, v := range in {\n\t\t(*out)[k] = v\n\t}\n}\n" % (name, name, name)}),
     "RefS": ("[]string", "slice", {"DeepCopy": "func (in %s) DeepCopy() %s {\n\treturn zzcp(in)\n}\n" % (name, name)}),
     "BasV": ("string", "basic", {"DeepCopy": "func (in %s) DeepCopy() %s {\n\treturn in\n}\n" % (name, name)}),
    }[form]
MANUAL = ["ManP", "ManV", "ManI", "ManJ", "ManB", "RefM", "RefS", "BasV"]

class Gen:
    def __init__(self, rng, bad, clash):
        self.rng, self.bad, self.types, self.text, self.imports = rng, bad, [], {}, {}
        self.clash = clash
    def decl(self, name, kind, term, text, own=True, manual=(), ref=True, plain=False, exported=None):
        t = dict(idx=len(self.types) + 1, name=name, kind=kind, term=term, own=own, manual=sorted(manual), exported=name[0].isupper() if exported is None else exported, enable=[], legacy=[], root=[], ifaces=[])
        t_ = dict(t, _go=text, _ref=ref, _val=True); self.types.append(t_); return t_
    def term(self, depth, byval=True, elem=False):
        """(TLA term, Go text); byval: the term is embedded by value in the type being declared."""
        rng = self.rng; x = rng.random()
        named = [t for t in self.types if t["_ref"] and (not byval or t["_done"])] if True else []
        if self.bad and x < .12 and depth < 3:
            return dict(k="other", e=[], n=0), rng.choice(["[2]string", "interface{}", "any", "error", "func()", "chan int", "interface{ M() }"]) 
        if depth >= 4 or x < .25: return dict(k="basic", e=[], n=0), rng.choice(BASICS)
        if x < .55 and named:
            t = rng.choice(named); return dict(k="named", e=[], n=t["idx"]), t["_go"]
        if x < .68: e, g = self.term(depth + 1, False, True); return dict(k="ptr", e=[e], n=0), "*" + g
        if x < .82: e, g = self.term(depth + 1, False, True); return dict(k="slice", e=[e], n=0), "[]" + g
        if x < .93 or (elem and not self.bad):
            e, g = self.term(depth + 1, False, True); keys = [t for t in self.types if t["_key"]]
            if keys and rng.random() < .4: t = rng.choice(keys); kt, kg = dict(k="named", e=[], n=t["idx"]), t["_go"]
            elif self.bad and rng.random() < .1: kt, kg = dict(k="other", e=[], n=0), "[2]string"
            else: kt, kg = dict(k="basic", e=[], n=0), rng.choice(["string", "int", "bool", "float64"])
            return dict(k="map", e=[e, kt], n=0), "map[%s]%s" % (kg, g)
        if self.bad: 
            fs = [self.term(depth + 1, True) for _ in range(rng.choice([1, 2]))]
        else: fs = [(dict(k="basic", e=[], n=0), rng.choice(BASICS)) for _ in range(rng.choice([0, 1, 2]))]
        return dict(k="struct", e=[f for f, _ in fs], n=0), "struct {\n" + "".join("\tF%d %s\n" % (i, g) for i, (_, g) in enumerate(fs)) + "}"

def case(rng, ci, mode):
    """mode: values (everything enabled), select (markers at random)"""
    g = Gen(rng, mode == "select" and rng.random() < .3, rng.random() < .5)
    files, exts = {}, {}
    ts = g.types
    # packages of other types, with names that may clash
    words = rng.sample(WORDS, rng.choice([0, 1, 2, 3])) if g.clash else rng.sample(["ext", "other"], rng.choice([0, 1, 2]))
    imports = []
    for k, w in enumerate(words):
        d = rng.choice(["", "sub/", "v1/"]) + w
        if d in exts or d == "p": continue
        pname = "x" + re.sub(r"\W", "", w) if not w.isidentifier() or w in ("default", "func", "string", "nil", "len", "make", "error", "new") or rng.random() < .3 else w
        exts[d] = pname
        body = "package %s\n\n%s" % (pname, CP)
        for f in rng.sample(["ManB", "ManB2", "Plain", "NB"], rng.choice([1, 2])):
            if f.startswith("ManB"):
                st, kind, ms = manual(f, "ManB"); body += "type %s %s\n\n%s" % (f, st, "".join(ms.values()))
                t = g.decl(f, "struct", dict(k="struct", e=[dict(k="basic", e=[], n=0), dict(k="slice", e=[dict(k="basic", e=[], n=0)], n=0)], n=0), "e%d.%s" % (k, f), own=False, manual=ms); t["_key"] = False
            elif f == "Plain": body += "type Plain struct {\n\tA int\n\tB string\n}\n"; t = g.decl(f, "struct", dict(k="struct", e=[dict(k="basic", e=[], n=0)] * 2, n=0), "e%d.%s" % (k, f), own=False); t["_key"] = rng.random() < .5
            else: body += "type NB string\n"; t = g.decl(f, "basic", dict(k="basic", e=[], n=0), "e%d.%s" % (k, f), own=False); t["_key"] = True
            t["_done"] = True
        files["%s/e.go" % d] = body; imports.append("e%d \"@MOD@/%s\"" % (k, d))
    decls, names = [], 0
    nilcase = mode == "values" and ci in (0, 1)
    for f in ["ManV"] if nilcase else rng.sample(MANUAL, rng.choice([0, 1, 2, 3])):
        st, kind, ms = manual(f + "X", f)
        term = dict(struct=dict(k="struct", e=[dict(k="basic", e=[], n=0), dict(k="slice", e=[dict(k="basic", e=[], n=0)], n=0)], n=0), map=dict(k="map", e=[dict(k="basic", e=[], n=0)] * 2, n=0), slice=dict(k="slice", e=[dict(k="basic", e=[], n=0)], n=0), basic=dict(k="basic", e=[], n=0))[kind]
        t = g.decl(f + "X", kind, term, f + "X", manual=ms); t["_done"] = True; t["_key"] = kind == "basic"
        t["_decl"] = st; t["_methods"] = "".join(ms.values())
    n = rng.randint(2, 6)
    plan = (["struct"] if nilcase else []) + [rng.choice(["struct", "struct", "struct", "struct", "slice", "map", "basic", "ptr", "alias", "derived", "unexp", "unexpref"] + (["iface", "func", "array"] if g.bad else [])) for _ in range(n)]
    # declared beforehand, so that they can refer to each other
    todo = []
    for i, k in enumerate(plan):
        name = {"struct": "St", "slice": "Li", "map": "Ma", "basic": "Ba", "ptr": "Pt", "alias": "Al", "derived": "De", "unexp": "un", "unexpref": "ur", "iface": "If", "func": "Fu", "array": "Ar"}[k] + str(i)
        t = g.decl(name, {"derived": "struct", "unexp": "struct", "unexpref": "slice", "iface": "other", "func": "other", "array": "other"}.get(k, k), None, name); t["_done"] = False; t["_key"] = False
        # what cannot be referred to before it is declared: aliases, pointers and the like
        t["_ref"] = k in ("struct", "slice", "map"); todo.append((k, t))
    for k, t in todo:
        if k == "struct":
            fs = [g.term(0) for _ in range(rng.randint(1, 4))]; t["term"] = dict(k="struct", e=[x for x, _ in fs], n=0)
            if nilcase: fs.append((dict(k="map", e=[dict(k="ptr", e=[dict(k="named", e=[], n=[x for x in ts if x["name"] == "ManVX"][0]["idx"])], n=0), dict(k="basic", e=[], n=0)], n=0), "map[string]*ManVX")); t["term"] = dict(k="struct", e=[x for x, _ in fs], n=0)
            t["_decl"] = "struct {\n" + "".join("\t%s %s `json:\"f%d\"`\n" % (("F%d" % i) if rng.random() < .85 else "f%d" % i, x, i) for i, (_, x) in enumerate(fs)) + "}"
        elif k in ("slice", "map"):
            e, x = g.term(1, False, True); key = "string"
            t["term"] = dict(k=k, e=[e] + ([dict(k="basic", e=[], n=0)] if k == "map" else []), n=0); t["_decl"] = ("[]" if k == "slice" else "map[string]") + x
        elif k == "basic": t["term"] = dict(k="basic", e=[], n=0); t["_decl"] = rng.choice(["string", "int64", "bool"]); t["_key"] = True
        elif k == "ptr": e, x = g.term(2, False, True); t["term"] = dict(k="ptr", e=[e], n=0); t["_decl"] = "*" + x
        elif k == "alias": e, x = g.term(2, True, True); t["term"] = e; t["_decl"] = "= " + x; t["_key"] = e["k"] == "basic"
        elif k == "derived":
            c = [s for s in ts if s["kind"] == "struct" and s["_done"] and s["own"] and not s["manual"]]
            if c: b = rng.choice(c); t["term"] = dict(k="named", e=[], n=b["idx"]); t["_decl"] = b["_go"]
            else: t["term"] = dict(k="struct", e=[], n=0); t["_decl"] = "struct{}"
        elif k == "unexp": t["term"] = dict(k="struct", e=[dict(k="basic", e=[], n=0)], n=0); t["_decl"] = "struct {\n\tA int\n}"
        elif k == "unexpref": t["term"] = dict(k="slice", e=[dict(k="basic", e=[], n=0)], n=0); t["_decl"] = "[]string"
        else: t["term"] = dict(k="other", e=[], n=0); t["_decl"] = {"iface": "interface{ M() }", "func": "func() error", "array": "[3]string"}[k]
        t["_done"] = True; t["_ref"] = k not in ("iface", "func", "array") or g.bad
    # markers
    pkg = dict(enable=[], legacy=[])
    own = [t for t in ts if t["own"]]
    used = used_names(ts)
    def mark(t, free):
        """free: nothing depends on the type being copied"""
        if free and rng.random() < .35: t["enable"] = [rng.random() < .5]
        if free and rng.random() < .2: t["legacy"] = [rng.choice(["true", "false"])]
        if rng.random() < (.3 if t["kind"] == "struct" else .1): t["root"] = [rng.random() < .8]
        if rng.random() < .15: t["ifaces"] = [rng.choice([OBJ, OBJ, "k8s.io/other.Object", "k8s.io/apimachinery/pkg/runtime.Unstructured"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    on = mode == "values" or rng.random() < .6
    if on:
        x = rng.random()
        if x < .6: pkg["enable"] = [True]
        elif x < .8: pkg["legacy"] = [rng.choice(["package", "package,register"])]
        else: pkg["enable"] = [True]; pkg["legacy"] = ["other"]
    else:
        x = rng.random()
        if x < .3: pkg["enable"] = [False]
        elif x < .45: pkg["enable"] = [False]; pkg["legacy"] = ["package"]
        elif x < .6: pkg["legacy"] = ["register"]
    for t in own:
        free = t["idx"] not in used
        if on: mark(t, free and mode == "select")
        else:
            # whatever is referred to has to be enabled by itself
            if free: mark(t, True)
            elif rng.random() < .5: t["enable"] = [True]; mark(t, False)
            else: t["legacy"] = ["true"]; mark(t, False)
    # hand-written object methods
    obj = None
    if rng.random() < .4:
        c = [t for t in own if t["kind"] == "struct" and t["exported"] and (t["root"] == [True]) and t["enable"] != [False] and (t["enable"] or t["legacy"] != ["false"]) and not t["name"].startswith("un")]
        if c:
            obj = rng.choice(c); obj["manual"] = sorted(obj["manual"] + ["DeepCopyObject"])
    body = ""
    for t in own:
        ms = ["+kubebuilder:object:generate=" + str(v).lower() for v in t["enable"]] + ["+k8s:deepcopy-gen=" + v for v in t["legacy"]] + ["+k8s:deepcopy-gen:interfaces=" + v for v in t["ifaces"]]
        ms += ["+kubebuilder:object:root" + "=" + str(v).lower() for v in t["root"]]
        rng.shuffle(ms)
        body += "// %s is a type.\n%s" % (t["name"], "".join("// %s\n" % m for m in ms)) + "type %s %s\n\n%s" % (t["name"], t["_decl"], t.get("_methods", ""))
    if obj: imports.append("rt \"k8s.io/apimachinery/pkg/runtime\""); body += "func (z *%s) DeepCopyObject() rt.Object {\n\treturn nil\n}\n" % obj["name"]
    local = ""
    if g.clash:
        for w in rng.sample(["extv1", "v1", "runtime", "out", "key", "subv1", "apiruntime", "pkgruntime"], 2): local += rng.choice(["const %s = 1\n", "func %s() {}\n", "type %s string\n", "var %s int\n"]) % w
        for w in re.findall(r"^type (\w+) ", local, re.M): t = g.decl(w, "basic", dict(k="basic", e=[], n=0), w); t["_key"] = False
    imports = [i for i in imports if i.split()[0] + "." in body]
    pm = ["+kubebuilder:object:generate=" + str(v).lower() for v in pkg["enable"]] + ["+k8s:deepcopy-gen=" + v for v in [dict(package="package", register="register", other="other").get(x, x) for x in pkg["legacy"]]]
    rng.shuffle(pm)
    pname = rng.choice(["v1", "v1beta1", "p", "runtime"]) if g.clash else "p"
    files["p/t.go"] = "".join("// %s\n" % m for m in pm) + "package %s\n\n" % pname + "".join("import %s\n" % i for i in imports) + "\n" + CP + local + body
    pkg["legacy"] = [x.split(",")[0] for x in pkg["legacy"]]
    rec = dict(pkg, types=[{k: v for k, v in t.items() if k[0] != "_"} for t in ts])
    return files, rec, pname

def used_names(ts):
    u = set()
    def walk(x):
        if x["k"] == "named": u.add(x["n"])
        for e in x["e"]: walk(e)
    for t in ts: walk(t["term"])
    return u

def scratch(ctx, cases, outs):
    """All packages with what was generated for them in one module, compiled."""
    d = ctx.path("mod")
    for ci, (files, rec, pname) in enumerate(cases):
        for f, t in files.items():
            p = os.path.join(d, "c%d" % ci, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t.replace("@MOD@", "m.test/c%d" % ci))
        for f, t in outs[ci].items():
            pk, n = f.split("//"); open(os.path.join(d, "c%d" % ci, pk.lstrip("./"), n), "w").write(t)
    os.makedirs(d + "/fakeapi/pkg/runtime", exist_ok=True)
    open(d + "/go.mod", "w").write("module m.test\n\ngo 1.24\n\nrequire k8s.io/apimachinery v0.0.0\n\nreplace k8s.io/apimachinery => ./fakeapi\n")
    open(d + "/fakeapi/go.mod", "w").write("module k8s.io/apimachinery\n\ngo 1.21\n")
    open(d + "/fakeapi/pkg/runtime/o.go", "w").write("package runtime\n\ntype Object interface{ DeepCopyObject() Object }\n")
    r = subprocess.run(["go", "build", "-gcflags=-e", "./..."], cwd=d, env=goenv(), capture_output=True, text=True, timeout=600)
    bad = {}
    cur = None
    for l in r.stderr.splitlines():
        m = re.match(r"^# m\.test/(c\d+/.*)$", l)
        if m: cur = m.group(1); bad.setdefault(cur, [])
        elif cur: bad[cur].append(l)
        elif l.strip(): raise CheckError("go build: " + r.stderr[:2000])
    if r.returncode and not bad: raise CheckError("go build: " + r.stderr[:2000])
    return d, bad

METHOD = re.compile(r"^func \((?:\w+ )?(\*?)(\w+)\) (DeepCopy\w*)\(", re.M)
def run(ctx, prop):
    model_check(ctx, "DeepCopyRun", "DeepCopyRunDeep" if ctx.thorough else None)
    for m in ("assign", "elements", "emptynil"): tlc(ctx, "DeepCopyRun", "DeepCopyRun_" + m, ok_codes=(12,), count=False)
    rng = ctx.rng
    if ctx.replay: cases = [tuple(ctx.replay["case"]["input"])]
    else:
        n = (260 if ctx.thorough else 70) if prop == "D01" else (700 if ctx.thorough else 170)
        cases = [case(rng, i, "values" if prop == "D01" or rng.random() < .4 else "select") for i in range(n)]
    exe = build_driver(ctx, "gen")
    ins = [dict(id=str(i), files=c[0], gens=["object"], reps=2, seed=i, order="shuffle", subst=False) for i, c in enumerate(cases)]
    obs = run_sharded(ctx, exe, ins, args=("-fake",))
    outs, failed = [], []
    again = []
    for i, c in enumerate(cases):
        rs = obs[str(i)]["reps"]; g = rs[0]["gens"][0]
        outs.append({f.replace("@", ""): t for f, t in g["files"].items()})
        failed.append([e for e in (rs[0]["errs"] or []) + [g["err"], g["panic"], g["regerr"]] if e])
        again.append(all(r["gens"][0]["files"] == g["files"] for r in rs))
    outs = [{f.replace("m.test/c%d" % i, "."): t.replace("m.test/c%d/" % i, "m.test/c%d/" % i) for f, t in o.items()} for i, o in enumerate(outs)]
    # the driver numbers cases within its shard: the packages are imported under their own numbers here
    outs = [{f: re.sub(r'"m\.test/c\d+/', '"m.test/c%d/' % i, t) for f, t in o.items()} for i, o in enumerate(outs)]
    d, broken = scratch(ctx, cases, outs)
    recs = []
    for i, (files, rec, pname) in enumerate(cases):
        ms = []
        f = outs[i].get("./p//zz_generated.deepcopy.go")
        if f: ms = [[n, m, p == "*"] for p, n, m in METHOD.findall(f)]
        recs.append(dict(rec, methods=ms, failed=bool(failed[i]), file=f is not None or len(outs[i]) > (1 if f else 0), compiles="c%d/p" % i not in broken, sameagain=again[i]))
    if prop == "D02":
        for i, why in judge(ctx, "DeepSelectConf", recs):
            ctx.violation("%s: %s" % (why, json.dumps(dict(broken=broken.get("c%d/p" % i), errors=failed[i], source=cases[i][0]))[:1800]), dict(input=cases[i], errors=failed[i], broken=broken.get("c%d/p" % i)))
        ctx.count("packages", len(recs)); ctx.count("methods", sum(len(r["methods"]) for r in recs)); ctx.count("refused", sum(r["failed"] for r in recs))
        good = [r for r in recs if not r["failed"] and r["methods"]][:9]; corrupt = []
        for k, r in enumerate(good):
            c = json.loads(json.dumps(r))
            if k % 3 == 0: c["methods"].pop()
            elif k % 3 == 1: c["compiles"] = False
            else: c["methods"][0][2] = not c["methods"][0][2]
            corrupt.append(c)
        if not ctx.replay: demand_rejected(ctx, "DeepSelectConf", corrupt, "altered methods")
        for r in good[:2]: ctx.sample(dict(enable=r["enable"], legacy=r["legacy"], types=r["types"], methods=r["methods"]))
        return
    # D01: link the harness with what compiles
    imp, ent, skipped = [], [], 0
    for i, r in enumerate(recs):
        if not r["compiles"] or not r["methods"]: skipped += 1; continue
        imp.append('p%d "m.test/c%d/p"' % (i, i))
        gen = {(t, m) for t, m, _ in r["methods"]}
        for t in r["types"]:
            if t["own"] and any((t["name"], m) in gen for m in ("DeepCopy", "DeepCopyInto")) :
                ent.append('{"%d", "%s", reflect.TypeOf((*p%d.%s)(nil)).Elem(), map[string]bool{%s}},' % (i, t["name"], i, t["name"], ", ".join('"%s": true' % m for n, m in sorted(gen) if n == t["name"])))
    if skipped > len(recs) // 2: raise CheckError("most packages do not compile: %s" % list(broken.items())[:3])
    os.makedirs(d + "/harness"); open(d + "/harness/main.go", "w").write(open(os.path.join(VERIF, "driver/dcharness/harness.go.txt")).read())
    open(d + "/harness/entries.go", "w").write("package main\n\nimport (\n\t\"reflect\"\n%s\n)\n\nvar entries = []entry{\n%s\n}\n" % ("\n".join("\t" + x for x in imp if any(e.startswith('{"%s"' % x.split()[0][1:]) for e in ent)), "\n".join("\t" + e for e in ent)))
    r = subprocess.run(["go", "build", "-o", ctx.path("harness"), "./harness"], cwd=d, env=goenv(), capture_output=True, text=True, timeout=600)
    if r.returncode: raise CheckError("harness: " + r.stderr[:3000])
    o = ctx.path("dc.ndjson")
    r = subprocess.run([ctx.path("harness"), str(40 if ctx.thorough else 12), str(ctx.seed * 1000), o], capture_output=True, text=True, timeout=600)
    if r.returncode: 
        if "stack overflow" in r.stderr or "panic" in r.stderr: raise ImplCrash("generated code: " + r.stderr[:2000], [])
        raise CheckError("harness: " + r.stderr[:3000])
    vals = read_nd(o)
    ctx.count("types_copied", len(ent)); ctx.count("values_copied", len(vals)); ctx.count("packages_not_compiling", skipped)
    for i, why in judge(ctx, "DeepCopyConf", vals, chunk=4000):
        v = vals[i]; key = None
        if ("called using nil" in v["panic"] or "nil pointer dereference" in v["panic"]) and nil_in_map(v["orig"]): key = "nil-map-value-by-value-copier"
        c = cases[int(v["pkg"])]
        ctx.violation("%s: %s %s" % (why, v["id"], v["panic"]), dict(input=c, observed=v), key=key)
    good = [v for v in vals if v["orig"]["c"] and not v["panic"] and cells(v["copy"])][:8]; corrupt = []
    for k, v in enumerate(good):
        c = json.loads(json.dumps(v))
        if k % 3 == 0: c["copy"]["c"].append(dict(k="b", m=False, v="zz", i=0, a=[], c=[]))
        elif k % 3 == 1: c["orig"]["a"] = c["after"]["a"] = [cells(v["copy"])[0]]
        else: c["after"] = dict(c["after"], v="changed")
        corrupt.append(c)
    if not ctx.replay: demand_rejected(ctx, "DeepCopyConf", corrupt, "altered copies")
    for v in vals[:2]: ctx.sample(v)
def cells(n): return n["a"] + [x for c in n["c"] for x in cells(c)]
def nil_in_map(n):
    """A nil pointer to a type that copies itself by value, as a value of a map: the known finding. Other values of the same types have no such nils, so that any other panic is still seen."""
    if n["k"] == "map" and any(c["k"] == "nil" and re.match(r"^\*\w+\.(ManV|ManJ|RefM|RefS)", c["v"]) for c in n["c"]): return True
    return any(nil_in_map(c) for c in n["c"])

def D01(ctx): run(ctx, "D01")
def D02(ctx): run(ctx, "D02")
