"""C09: what a Go type is encoded as, against what its CRD schema accepts and keeps."""
import json, os, random, re, shutil, subprocess
from vlib import *

BASIC = ["bool", "string", "string", "string", "int", "int8", "int16", "int32", "int64", "rune", "uint", "uint8", "byte", "uint16", "uint32", "uint64"]
KNOWN = ["metav1.Time", "metav1.MicroTime", "metav1.Duration", "resource.Quantity", "intstr.IntOrString", "runtime.RawExtension", "apiextv1.JSON", "apiextv1beta1.JSON", "metav1.LabelSelector", "metav1.Condition",
         "metav1.GroupVersionKind", "metav1.OwnerReference", "metav1.ListMeta", "metav1.Verbs", "metav1.GroupResource"]
CORE = ["corev1.ResourceRequirements", "corev1.LocalObjectReference", "corev1.SecretKeySelector", "corev1.EnvVar", "corev1.Toleration", "corev1.ObjectReference", "corev1.VolumeMount", "corev1.Probe",
        "corev1.SecurityContext", "corev1.ServicePort", "corev1.Taint", "corev1.ResourceList", "corev1.Affinity", "corev1.Protocol", "corev1.EnvFromSource", "corev1.TopologySpreadConstraint",
        "corev1.PodTemplateSpec", "corev1.PersistentVolumeClaimSpec", "corev1.Volume", "corev1.Container"]
PKGS = dict(metav1="k8s.io/apimachinery/pkg/apis/meta/v1", resource="k8s.io/apimachinery/pkg/api/resource", intstr="k8s.io/apimachinery/pkg/util/intstr", runtime="k8s.io/apimachinery/pkg/runtime",
            apiextv1="k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1", apiextv1beta1="k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1", corev1="k8s.io/api/core/v1", unstructured="k8s.io/apimachinery/pkg/apis/meta/v1/unstructured", lib="m.test/~0me/lib")
NAMES = ["a", "b", "kind2", "x-y", "some.name", "_", "A", "camelCase", "k8s.io/x", "\u043a\u043b", "x y", "a~b", "-", "a:b", "$ref", "items", "properties", "type"]
# types with their own encoding; the second says whether it is on the pointer only
MARSH = [("Text", 'type %(n)s struct { X int32 }\nfunc (t %(n)s) MarshalText() ([]byte, error) { return []byte(strconv.Itoa(int(t.X))), nil }\nfunc (t *%(n)s) UnmarshalText(b []byte) error { n, err := strconv.Atoi(string(b)); t.X = int32(n); return err }\n', False),
    ("PText", 'type %(n)s struct { X int32 }\nfunc (t *%(n)s) MarshalText() ([]byte, error) { return []byte(strconv.Itoa(int(t.X))), nil }\nfunc (t *%(n)s) UnmarshalText(b []byte) error { n, err := strconv.Atoi(string(b)); t.X = int32(n); return err }\n', True),
    ("TextInt", 'type %(n)s int32\nfunc (t %(n)s) MarshalText() ([]byte, error) { return []byte(strconv.Itoa(int(t))), nil }\nfunc (t *%(n)s) UnmarshalText(b []byte) error { n, err := strconv.Atoi(string(b)); *t = %(n)s(n); return err }\n', False),
    ("TextList", 'type %(n)s []int32\nfunc (t %(n)s) MarshalText() ([]byte, error) { return []byte(strconv.Itoa(len(t))), nil }\nfunc (t *%(n)s) UnmarshalText(b []byte) error { n, err := strconv.Atoi(string(b)); if err == nil { *t = make(%(n)s, n) }; return err }\n', False),
    ("JSONStr", '// +kubebuilder:validation:Type=string\ntype %(n)s struct { X int32 }\nfunc (t %(n)s) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.Itoa(int(t.X))) }\nfunc (t *%(n)s) UnmarshalJSON(b []byte) error { var s string; if err := json.Unmarshal(b, &s); err != nil { return err }; n, err := strconv.Atoi(s); t.X = int32(n); return err }\n', False),
    ("JSONInt", '// +kubebuilder:validation:Type=integer\ntype %(n)s struct { X int32 `json:"x"` }\nfunc (t *%(n)s) MarshalJSON() ([]byte, error) { return json.Marshal(t.X) }\nfunc (t *%(n)s) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &t.X) }\n', True),
    ("JSONBoth", '// +kubebuilder:validation:Type=integer\ntype %(n)s struct { X int32 `json:"x"` }\nfunc (t %(n)s) MarshalJSON() ([]byte, error) { return json.Marshal(t.X) }\nfunc (t *%(n)s) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &t.X) }\nfunc (t %(n)s) MarshalText() ([]byte, error) { return nil, nil }\n', False),
    ("JSONAny", '// +kubebuilder:pruning:PreserveUnknownFields\n// +kubebuilder:validation:Type=object\ntype %(n)s struct { X string `json:"-"` }\nfunc (t %(n)s) MarshalJSON() ([]byte, error) { if t.X == "" { return []byte("{}"), nil }; return json.Marshal(map[string]any{"zz": t.X, "n": map[string]int{"k": 1}}) }\nfunc (t *%(n)s) UnmarshalJSON(b []byte) error { var x map[string]any; return json.Unmarshal(b, &x) }\n', False)]

class Pkg:
    """Types of one package. decls: name -> (text, keyable, pointer-only encoding)."""
    def __init__(self, rng, name, opts, lib=None):
        self.rng, self.name, self.opts, self.lib = rng, name, opts, lib
        self.text, self.names, self.keys, self.ptronly, self.structs, self.bytes = [], [], ["string"], set(), [], []
        self.imports = set(); self.n = 0
    def fresh(self, base):
        self.n += 1; return base + str(self.n)
    def ref(self, t):
        m = re.match(r"\*?(\w+)\.", t)
        if m: self.imports.add(m.group(1))
        return t
    def leaf(self, elem=False):
        rng = self.rng; r = rng.random()
        if r < .35: return rng.choice(BASIC + (["float32", "float64"] if self.opts["floats"] else []))
        if r < .40: return "[]byte"
        if r < .72 and self.names:
            t = rng.choice(self.names)
            return "*" + t if t in self.ptronly else t      # values in maps are encoded without such methods
        if r < .80 and self.lib:
            t = rng.choice(self.lib.names)
            return self.ref(("*lib." if t in self.lib.ptronly else "lib.") + t)
        if r < .93:
            t = rng.choice(KNOWN + (["metav1.ObjectMeta"] * 2 if self.opts["meta"] else []))
            return self.ref(t)
        return self.ref(rng.choice(CORE))
    def typ(self, d, elem=False):
        rng = self.rng; r = rng.random()
        if d == 0 or r < .45: return self.leaf(elem)
        if r < .57:
            return "*" + self.typ(d - 1, elem)
        if r < .75:
            if rng.random() < .12 and self.bytes: return "[]" + rng.choice(self.bytes)
            return "[]" + self.typ(d - 1)
        if r < .82: return "[%d]%s" % (rng.choice([1, 2, 3]), self.typ(d - 1))
        return "map[%s]%s" % (rng.choice(self.keys), self.typ(d - 1, elem=True))
    def declare(self):
        rng = self.rng; r = rng.random()
        if r < .2:
            n = self.fresh("N"); t = rng.choice(BASIC); self.text.append("type %s %s\n" % (n, t))
            if t == "string": self.keys.append(n)
            if t in ("uint8", "byte"): self.bytes.append(n)
        elif r < .35: n = self.fresh("L"); self.text.append("type %s %s\n" % (n, rng.choice(["[]", "[2]", "map[%s]" % rng.choice(self.keys)]) + self.typ(1, elem=True)))
        elif r < .42:
            n = self.fresh("A"); t = rng.choice(["string", "int64", "byte", "[]string", "[]byte"] + [x for x in self.names if x not in self.ptronly]); self.text.append("type %s = %s\n" % (n, t))
            if t in self.keys: self.keys.append(n)
            if t in ("byte",) or t in self.bytes: self.bytes.append(n)
        elif r < .55:
            n = self.marsh(rng.choice(MARSH))
        else:
            n = self.struct(rng.randint(0, 5))
        self.names.append(n)
    def marsh(self, m):
        n = self.fresh("M"); self.text.append(m[1] % dict(n=n))
        if m[2]: self.ptronly.add(n)
        return n
    def struct(self, k, name=None, head="", embed=0):
        """A struct of k fields; embed limits how deep structs are embedded in it."""
        rng = self.rng; n = name or self.fresh("S"); lines = []
        names = self.used(k + 4, embed)
        for i in range(k):
            r = rng.random()
            if r < .12 and embed < 2:
                e = self.struct(rng.randint(1, 3), embed=embed + 1, name=self.fresh(rng.choice(["E", "e"])))
                ptr = "*" if rng.random() < .3 and e[0] == "E" else ""
                lines.append("\t%s%s %s" % (ptr, e, rng.choice(['`json:",inline"`', '`json:",inline"`', '`json:""`', '`json:"%s"`' % names.pop()]))); continue
            if r < .16: lines.append('\tH%d %s `json:"-"`' % (i, rng.choice(["chan int", "func()", "string"]))); continue
            if r < .2 and self.opts["unexported"]: lines.append('\tu%d %s `json:"%s"`' % (i, "string", names.pop())); continue
            marks, extra, tag = [], "", names.pop()
            f = "F%d" % i if embed == 0 else "X%sF%d" % (n, i)
            t = self.typ(3)
            if r < .25:
                marks += ["+kubebuilder:validation:Schemaless", "+kubebuilder:pruning:PreserveUnknownFields"]; t = "any"
            elif r < .28: t = self.ref("*unstructured.Unstructured"); marks.append("+kubebuilder:pruning:PreserveUnknownFields")
            elif r < .32: t = rng.choice(["int32", "int64", "uint16", "bool", "*int", "string", "float64"] + [x for x in self.names if x[0] == "N"]); extra = ",string"
            if t.startswith("*float") or t == "float64" and not self.opts["floats"]: t = "int64"
            opts = rng.choice(["", "", ",omitempty", ",omitempty", ",omitzero", ",omitempty,omitzero"])
            if opts == "" and rng.random() < .2 and re.match(r"\*|\[\]|map", t) and not extra:
                marks.append("+nullable"); extra += '" verif:"null'
            if opts == "" and rng.random() < .1: marks.append(rng.choice(["+optional", "+kubebuilder:validation:Optional", "+required", "+kubebuilder:validation:Required"]))
            if opts and rng.random() < .3: marks.append(rng.choice(["+optional", "+kubebuilder:validation:Optional"]))
            if tag == "-" and not opts and not extra.startswith(",string"): opts = ","
            if rng.random() < .06 and tag != "-": names.append(tag); tag = ""; 
            lines += ["\t// " + m for m in marks] + ['\t%s %s `json:"%s%s%s"`' % (f, t, tag, opts, extra)]
        self.text.append("%stype %s struct {\n%s\n}\n" % (head, n, "\n".join(lines)))
        if name is None: self.structs.append(n)
        return n
    def used(self, k, embed):
        # names of embedded structs must differ from those around
        if embed: return ["%s%d" % (self.rng.choice(["e", "E_", "in.ner"]), self.n * 100 + i) for i in range(k)]
        return self.rng.sample(NAMES, k)
    def source(self, marks=""):
        std = {"strconv": "strconv", "json": "encoding/json"}
        self.imports = set(re.findall(r"(?<![\w.\"])(%s)\.[A-Z]" % "|".join([*PKGS, *std]), "\n".join(self.text)))
        imp = "".join('\t%s"%s"\n' % ("" if i in std else i + " ", std.get(i) or PKGS[i]) for i in sorted(self.imports))
        return "%spackage %s\n%s\n%s" % (marks, self.name, "import (\n%s)\n" % imp if imp else "", "\n".join(self.text))

def package(rng, i, opts, lib):
    p = Pkg(rng, "p%d" % i, opts, lib)
    for _ in range(rng.randint(3, 9)): p.declare()
    p.imports.add("metav1")
    fields = p.struct(rng.randint(3, 8), name="Spec")
    p.text.append('// +kubebuilder:object:root=true\ntype Root struct {\n\tmetav1.TypeMeta `json:",inline"`\n\tmetav1.ObjectMeta `json:"metadata,omitempty"`\n\tSpec Spec `json:"spec"`\n\tStatus %s `json:"status,omitempty"`\n}\n'
                  % rng.choice(["Spec", "*Spec"] + [n for n in p.structs]))
    return p.source("// +groupName=g%d.test.io\n" % i + rng.choice(["", "", "// +kubebuilder:validation:Optional\n"]))

# ---- records
KEYS = {"type", "format", "nullable", "x-kubernetes-int-or-string", "x-kubernetes-preserve-unknown-fields", "x-kubernetes-embedded-resource", "properties", "required", "additionalProperties", "items", "anyOf", "allOf", "oneOf",
        "enum", "pattern", "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "minimum", "maximum", "description", "default", "x-kubernetes-list-type", "x-kubernetes-list-map-keys", "x-kubernetes-map-type", "title", "example"}
def schema(s):
    odd = set(s) - KEYS
    if odd: raise CheckError("schema keywords without a meaning: %s" % odd)
    ap = s.get("additionalProperties")
    return dict(type=s.get("type", ""), fmt=s.get("format", ""), pat=[s["pattern"]] if "pattern" in s else [], null=bool(s.get("nullable")), ios=bool(s.get("x-kubernetes-int-or-string")),
        pres=bool(s.get("x-kubernetes-preserve-unknown-fields")), emb=bool(s.get("x-kubernetes-embedded-resource")), props=[dict(n=k, s=schema(v)) for k, v in sorted(s.get("properties", {}).items())], req=sorted(s.get("required", [])),
        addl=[] if ap in (None, False) else [schema({} if ap is True else ap)], any=[schema(x) for x in s.get("anyOf", [])], all=[schema(x) for x in s.get("allOf", [])], one=[schema(x) for x in s.get("oneOf", [])],
        items=[schema(s["items"])] if "items" in s else [], enum=[json.dumps(x, sort_keys=True) for x in s.get("enum", [])],
        least=[s[k] for k in ("minLength", "minItems", "minProperties") if k in s], most=[s[k] for k in ("maxLength", "maxItems", "maxProperties") if k in s], bounds=[x for x in ("minimum", "maximum") if x in s])
def patterns(s, out):
    if isinstance(s, dict):
        if isinstance(s.get("pattern"), str): out.add(s["pattern"])
        for v in s.values(): patterns(v, out)
    elif isinstance(s, list):
        for v in s: patterns(v, out)
    return out
B64 = re.compile(r"^(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$")
TIME = re.compile(r"^\d{4}-\d\d-\d\d[Tt]\d\d:\d\d:\d\d(\.\d+)?([zZ]|[+-]\d\d:\d\d)$")
def value(v, pats):
    z = dict(k="", s="", n=0, fits=[], ps=[], es=[])
    if v is None: z["k"] = "null"
    elif v is True or v is False: z["k"] = "boolean"; z["s"] = json.dumps(v)
    elif isinstance(v, (int, float)): z["k"] = "integer" if v == int(v) else "number"; z["s"] = json.dumps(v)
    elif isinstance(v, str):
        z["k"] = "string"; z["s"] = json.dumps(v); z["n"] = len(v)
        z["fits"] = [p for p in pats if re.search(p, v)] + (["byte"] if v and B64.match(v) else []) + (["date-time"] if TIME.match(v) else [])
    elif isinstance(v, list): z["k"] = "array"; z["n"] = len(v); z["es"] = [value(x, pats) for x in v]
    else: z["k"] = "object"; z["n"] = len(v); z["ps"] = [dict(n=k, v=value(x, pats)) for k, x in sorted(v.items())]
    return z

def build(ctx, n, rng, opts, tag):
    """Generates n packages in a module of their own, their CRDs, and the program with their types."""
    mod = ctx.path("mod-" + tag); shutil.rmtree(mod, ignore_errors=True); os.makedirs(mod + "/~0me/lib")
    gm, gs = clean_module(ctx)
    open(mod + "/go.mod", "w").write(gm); open(mod + "/go.sum", "w").write(gs)
    lib = Pkg(rng, "lib", opts)
    lib.names += [lib.marsh(m) for m in MARSH]
    for _ in range(10): lib.declare()
    src = {"~0me/lib/lib.go": lib.source()}
    for i in range(n): src["p%d/types.go" % i] = package(rng, i, opts, lib)
    return finish_module(ctx, mod, src, n, opts)

def finish_module(ctx, mod, src, n, opts):
    ids = sorted({f.split("/")[0] for f in src if f[0] == "p"}, key=lambda x: int(x[1:]))
    for f, t in src.items():
        os.makedirs(os.path.dirname(mod + "/" + f), exist_ok=True); open(mod + "/" + f, "w").write(t)
    reg = "package main\nimport (\n\t\"reflect\"\n%s)\nvar Registry = map[string]reflect.Type{\n%s}\n" % ("".join('\t"m.test/%s"\n' % i for i in ids), "".join('\t"%s": reflect.TypeOf(%s.Root{}),\n' % (i, i) for i in ids))
    os.makedirs(mod + "/prog", exist_ok=True); open(mod + "/prog/reg.go", "w").write(reg)
    shutil.copy(os.path.join(VERIF, "driver", "serial", "main.go"), mod + "/prog/main.go")
    return mod, src, ids

def crds(ctx, cg, mod, ids, opts):
    out = mod + "/crds"; shutil.rmtree(out, ignore_errors=True)
    g = "crd:allowDangerousTypes=%s,generateEmbeddedObjectMeta=%s,ignoreUnexportedFields=%s" % tuple(str(opts[k]).lower() for k in ("floats", "meta", "unexported"))
    r = subprocess.run([cg, g, "output:crd:dir=" + out, *["paths=./" + i for i in ids]], cwd=mod, capture_output=True, text=True, env=goenv(dict(GOFLAGS="-mod=mod")), timeout=600)
    res = {}
    for i in ids:
        f = out + "/g%s.test.io_roots.yaml" % i[1:]
        if os.path.exists(f): res[i] = yload_all(open(f, encoding="utf8").read())[0]["spec"]["versions"][0]["schema"]["openAPIV3Schema"]
    return r, res

def C09(ctx):
    from concurrent.futures import ThreadPoolExecutor
    rng = ctx.rng
    model_check(ctx, "SerialRun", "SerialRun_run")
    for v in ("arr", "bytes", "omit", "closed", "string", "null"):
        if "Agree is violated" not in tlc(ctx, "SerialRun", "SerialRun_" + v, ok_codes=(12,), count=False)[1]: raise CheckError("the wrong mapping %s should be found" % v)
    groups = [(dict(floats=True, meta=True, unexported=True), 40 if ctx.thorough else 18), (dict(floats=False, meta=False, unexported=False), 20 if ctx.thorough else 8)]
    differ = []
    rounds = 6 if ctx.thorough else 1
    cg = build_cmd(ctx, "controller-gen")
    for rd in range(rounds):
        for gi, (opts, n) in enumerate(groups):
            if ctx.replay and "files" in ctx.replay["case"]:
                c = ctx.replay["case"]; opts = c["opts"]; mod = ctx.path("mod-r"); os.makedirs(mod, exist_ok=True)
                gm, gs = clean_module(ctx); open(mod + "/go.mod", "w").write(gm); open(mod + "/go.sum", "w").write(gs)
                mod, src, ids = finish_module(ctx, mod, c["files"], 0, opts); seeds = {i: c["seed"] for i in ids}
            else:
                mod, src, ids = build(ctx, n, rng, opts, "%d-%d" % (rd, gi)); seeds = {i: rng.randrange(2**40) for i in ids}
            exe = mod + "/prog/x"
            with ThreadPoolExecutor(2) as ex:
                b = ex.submit(subprocess.run, ["go", "build", "-o", exe, "./prog"], cwd=mod, env=goenv(dict(GOFLAGS="-mod=mod")), capture_output=True, text=True)
                c = ex.submit(crds, ctx, cg, mod, ids, opts)
                b = b.result(); r, schemas = c.result()
            if b.returncode: raise CheckError("the generated packages do not build:\n" + b.stderr[:3000])
            def case(i): return dict(files={f: t for f, t in src.items() if f.startswith("~0me/") or f.startswith(i + "/")}, opts=opts, seed=seeds[i])
            if r.returncode in (2,) or "panic:" in r.stderr: raise ImplCrash("controller-gen crashes: " + r.stderr[:1500], [])
            for i in ids:
                if r.returncode and (i not in schemas or ("/" + i + "/") in r.stderr):
                    bad = [l for l in r.stderr.splitlines() if "/%s/" % i in l or "/lib/" in l]
                    if bad or i not in schemas: ctx.violation("no schema for a type that can be encoded: %s" % (bad or r.stderr[:500]), case(i))
            cases = [dict(id=i, seed=seeds[i], schema=schemas[i], values=20 if ctx.thorough else 10, mutants=12 if ctx.thorough else 8) for i in ids if i in schemas]
            obs = run_driver(ctx, exe, cases)
            recs, at = [], []
            for c in cases:
                o = obs[c["id"]]
                if o["err"]:
                    ctx.violation("the API server cannot use the schema: " + o["err"][:400], case(c["id"])); continue
                pats = sorted(patterns(c["schema"], set()))
                recs.append(dict(s=schema(c["schema"]), docs=[dict(kind=d["kind"], acc=d["acc"], kept=d["kept"], v=value(d["v"], pats)) for d in o["docs"]])); at.append((c["id"], o))
                for d in o["docs"]: ctx.count("documents: " + d["kind"])
            for i, why in judge(ctx, "SerialConf", recs, heap="8g"):
                pid, o = at[i]
                idx = [int(x) for x in re.findall(r'<<"[^"]*", "?(\d+)', why)]
                d = [o["docs"][k - 1] for k in idx[:3]]
                if re.fullmatch(r'\{<<"model", "\d+">>\}', why.strip()):
                    differ.append("%s %s %s" % (why[:300], json.dumps(d)[:1500], json.dumps(schemas[pid])[:3000])); continue
                ctx.violation("%s: %s" % (why[:200], json.dumps([dict(kind=x["kind"], what=x["what"], why=x["why"], v=x["v"]) for x in d])[:1200]), case(pid))
            if rd == 0 and gi == 0 and not ctx.replay:
                bad = []
                for x in recs[:6]:
                    y = json.loads(json.dumps(x))
                    d = [d for d in y["docs"] if d["kind"] == "emit" and d["v"]["ps"]]
                    if not d: continue
                    d[0]["v"]["ps"].append(dict(n="zzz9", v=value("s", []))); d[0]["kept"] = False; bad.append(y)
                demand_rejected(ctx, "SerialConf", bad, "encodings with an unknown property")
            ctx.sample(dict(types=len(ids), kinds=[d["kind"] for d in (at[0][1]["docs"] if at else [])][:10]))
            if ctx.replay: return
    if differ and not ctx.violations: raise CheckError("the specification and the API server's validation differ: " + differ[0])
