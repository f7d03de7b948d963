"""S01: patching the schemas of CRD manifests (pkg/schemapatcher)."""
import json, re
from vlib import *

GROUPS = {"g1": "g1.io", "g2": "g2.io"}
TEXTS = ["Something.", "First line\nsecond line.", "A sentence. Another one that is long enough to be cut.", "with: colon", "- item\n- item", "it's \"quoted\"", "\ttabbed", "trailing  "]
FT = ["string", "int64", "bool", "*string", "[]string", "map[string]int32", "[]Inner", "*Inner", "map[string]Inner"]
FM = [("string", ["+kubebuilder:validation:MinLength=1"]), ("string", ["+kubebuilder:validation:Enum=a;b;\"true\""]), ("string", ["+kubebuilder:default=\"true\""]), ("int64", ["+kubebuilder:validation:Maximum=1000000", "+kubebuilder:default=3"]), ("[]string", ["+listType=set"]), ("string", ["+kubebuilder:validation:Pattern=`^a: b#$`"]),
      ("bool", ["+kubebuilder:default=false"]), ("*int32", ["+optional", "+nullable"]), ("map[string]string", ["+kubebuilder:validation:XValidation:rule=\"self.size() < 5\",message=\"too many: 5\""])]
def comment(rng, ind): return "".join("%s// %s\n" % (ind, l) for l in rng.choice(TEXTS).split("\n")) if rng.random() < .6 else ""
def gopkg(rng, ver, group, kinds, storage):
    b = "// +groupName=%s\n%spackage %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n" % (group, "", ver)
    def fields(ts):
        r = ""
        for i in range(rng.randint(1, 4)):
            if rng.random() < .5: t, ms = rng.choice(ts), []
            else: t, ms = rng.choice(FM)
            r += comment(rng, "\t") + "".join("\t// %s\n" % m for m in ms) + "\tF%d %s `json:\"f%d%s\"`\n" % (i, t, i, rng.choice(["", ",omitempty"]))
        return r
    b += comment(rng, "") + "type Inner struct {\n" + fields(FT[:6]) + "}\n\n"
    for k in kinds:
        other = [o for o in kinds if o > k]
        b += comment(rng, "") + "type %sSpec struct {\n%s%s}\n\n" % (k, fields(FT), "\tOther []%s `json:\"other,omitempty\"`\n" % other[0] if other and rng.random() < .4 else "")
        b += comment(rng, "") + ("// +kubebuilder:storageversion\n" if storage[k] == ver else "") + "type %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n%s\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\n\tSpec %sSpec `json:\"spec\"`\n}\n\n" % (k, comment(rng, "\t"), k)
    if not kinds: b += "var _ metav1.TypeMeta\n"
    return b

def note(rng, p=.15): return "  # note %d" % rng.randint(0, 999) if rng.random() < p else ""
def about(rng, ind, p=.12): return "%s# about %d\n" % (ind, rng.randint(0, 999)) if rng.random() < p else ""
def schema_text(rng, ind):
    return "".join(ind + l + "\n" for l in rng.choice([["type: object"], ["type: object  # old", "properties:", "  # old property", "  spec:", "    type: string"], ["{}"], ["description: |-", "  old", "  text", "type: object"]]))
def crd_text(rng, gk, versions, api, nameless):
    """text of a CRD manifest"""
    o = about(rng, "") + "apiVersion: apiextensions.k8s.io/%s%s\n" % (api, note(rng))
    o += "kind: CustomResourceDefinition\n"
    md = "metadata:\n" + about(rng, "  ") + "  name: \"x.y\"%s\n" % note(rng) + ("  annotations: {a: b, 'c': \"true\"}\n" if rng.random() < .4 else "") + ("  labels:\n    l: \"1\"%s\n" % note(rng) if rng.random() < .3 else "")
    st = "status:\n  conditions: []\n" if rng.random() < .3 else ""
    sp = ["  group: %s%s\n" % (gk[0], note(rng)), about(rng, "  ") + "  names:\n    kind: %s\n    plural: xs%s\n" % (gk[1], note(rng)), "  scope: Namespaced\n"]
    if rng.random() < .25: sp.append("  validation:\n    openAPIV3Schema:\n      type: object\n")
    if rng.random() < .3: sp.append("  conversion: {strategy: None}\n")
    if rng.random() < .2: sp.append("  preserveUnknownFields: false\n")
    ind = rng.choice(["  ", "    "]); vs = ""
    for i, v in enumerate(versions):
        parts = ["name: %s%s\n" % (rng.choice([v, '"%s"' % v]), note(rng)), "served: true\n", "storage: %s%s\n" % (str(i == 0).lower(), note(rng))]
        if nameless and i == len(versions) - 1: parts[0] = rng.choice(["deprecated: false\n", 'name: ""\n'])
        x = rng.random(); nl = "\n" + ind + "  "
        if x < .6: parts.append("schema:\n%s    %sopenAPIV3Schema:\n%s" % (ind, "", schema_text(rng, ind + "      ")))
        elif x < .7: parts.append("schema: {openAPIV3Schema: {type: object}}\n")
        elif x < .75: parts.append("schema: {}\n")
        if rng.random() < .4: parts.append("subresources:\n%s    status: {}\n" % ind)
        if rng.random() < .4: parts.append("additionalPrinterColumns:\n%s  - name: A%s\n%s    type: string\n%s    jsonPath: .a\n" % (ind, note(rng), ind, ind))
        if rng.random() < .6: rng.shuffle(parts)
        vs += about(rng, ind) + ind + "- " + (ind + "  ").join(about(rng, "", .1 if j else 0) + (ind + "  " if False else "") + p for j, p in enumerate(parts))
    vs = fixabout(vs, ind)
    sp.insert(rng.randint(0, len(sp)), about(rng, "  ") + ("  versions:\n" + vs if versions else "  versions: []\n"))
    spec = about(rng, "") + "spec:\n" + "".join(sp)
    rest = [md, spec] + ([st] if st else []); 
    if rng.random() < .3: rng.shuffle(rest)
    return o + "".join(rest)
def fixabout(t, ind):
    """comment lines within an item are followed by a line that needs its indentation"""
    return re.sub(r"(?m)^(\s*# about \d+\n)(?=[a-zA-Z])", lambda m: m.group(1) + ind + "  ", t)

def case(rng):
    files, go = {}, {}
    pk = []
    kinds = ["Ka", "Kb", "Kc"]
    for g in ("g1", "g2"):
        vs = rng.sample(["v1", "v1beta1", "v2"], rng.choice([1, 1, 2, 3])); use = {v: sorted(rng.sample(kinds, rng.choice([0, 1, 2, 3, 3]))) for v in vs}
        storage = {k: next((v for v in vs if k in use[v]), "") for k in kinds}
        for v in vs:
            ks = use[v]
            if len(ks) > 1 and rng.random() < .15:
                # kinds of a version in two packages
                files["%sx/%s/t.go" % (g, v)] = gopkg(rng, v, GROUPS[g], ks[:1], storage); ks = ks[1:]
            files["%s/%s/t.go" % (g, v)] = gopkg(rng, v, GROUPS[g], ks, storage)
    mans, bad = {}, rng.random()
    for i in range(rng.choice([0, 1, 2, 3, 4])):
        docs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            x = rng.random()
            if x < .78:
                gk = (rng.choice(["g1.io", "g1.io", "g2.io", "none.io"]), rng.choice(kinds + ["Kz"]) if rng.random() < .9 else "Inner")
                versions = rng.sample(["v1", "v1beta1", "v2", "v9"], rng.choice([0, 1, 2, 2, 3]))
                docs.append(crd_text(rng, gk, versions, "v1" if bad > .08 or rng.random() < .5 else "v1beta1", .08 < bad < .16 and rng.random() < .5))
            elif x < .9: docs.append("# a thing\napiVersion: v1\nkind: ConfigMap%s\ndata:\n  a: |\n    text\n  spec: \"1\"\n" % note(rng))
            else: docs.append(rng.choice(["foo: bar\n", "- a\n- b\n", "kind: CustomResourceDefinition\n", "apiVersion: apiextensions.k8s.io/v1\n", "apiVersion: [x]\nkind: CustomResourceDefinition\n"]))
        mans["f%d.yaml" % i] = rng.choice(["", "---\n", "# file\n---\n" if False else ""]) + "---\n".join(docs)
    if rng.random() < .2: mans["z.yaml"] = rng.choice(["", "a: [\n", "\tx\n", "{{ template }}\n", "# nothing\n"])
    others = {}
    if rng.random() < .2: others[rng.choice(["x.yml", "x.json", "sub/x.yaml", "x.yaml.bak", "README"])] = crd_text(rng, ("g1.io", "Ka"), ["v1"], "v1", False)
    opts = []
    if rng.random() < .4: opts.append("maxDescLen=%d" % rng.choice([0, 10, 40]))
    if rng.random() < .3: opts.append("generateEmbeddedObjectMeta=true")
    return dict(files=files, mans=mans, others=others, opts=opts)

def plain(t):
    """the value of a tree, without comments and styles"""
    if t["k"] == "map": return {"%s" % t["e"][i]["v"]: plain(t["e"][i + 1]) for i in range(0, len(t["e"]), 2)}
    if t["k"] == "seq": return [plain(e) for e in t["e"]]
    if t["k"] == "s":
        if t["t"] in ("!!int", "!!float"): return float(int(t["v"], 0) if t["t"] == "!!int" else float(t["v"]))
        if t["t"] == "!!bool": return t["v"] == "true"
        if t["t"] == "!!null": return None
        return [t["t"], t["v"]]
    return t["k"]
def notes(t): return [l.strip() for l in re.findall(r"#[^\n|]*", t["c"])] + [x for e in t["e"] or [] for x in notes(e)]
def struct(t):
    """everything but comments and the order of nothing: an ordered value"""
    if t["k"] == "map": return ["m"] + [[struct(t["e"][i]), struct(t["e"][i + 1])] for i in range(0, len(t["e"]), 2)]
    if t["k"] in ("seq", "doc"): return [t["k"]] + [struct(e) for e in t["e"] or []]
    return [t["k"], t["t"], t["v"]]
def get(t, *path):
    for p in path:
        if not t or t["k"] != "map": return None
        t = next((t["e"][i + 1] for i in range(0, len(t["e"]), 2) if t["e"][i]["v"] == p), None)
    return t
def text(t): return t["v"] if t and t["k"] == "s" and t["t"] == "!!str" else ""
def drop(t, key):
    """the tree without an entry, and what the entry said in comments"""
    if not t or t["k"] != "map": return []
    for i in range(0, len(t["e"]), 2):
        if t["e"][i]["v"] == key:
            gone = t["e"][i:i + 2]; t["e"] = t["e"][:i] + t["e"][i + 2:]
            return gone
    return []

class Ids:
    def __init__(self): self.m = {"": 0}
    def __call__(self, s): return self.m.setdefault(s, len(self.m))
def schema_id(ids, node, go=False):
    if node is None: return 0
    return ids(json.dumps([plain(node), sorted(notes(node))], sort_keys=True))
def project(ids, tree, new):
    """A document for the specification. new: the versions of its group-kind that have Go types are going to be patched."""
    t = json.loads(json.dumps(tree)); root = t["e"][0] if t["k"] == "doc" and t["e"] else t
    api, kind = get(root, "apiVersion"), get(root, "kind")
    d = dict(crd=bool(text(api)) and text(kind) == "CustomResourceDefinition", supported=True, gk="", top=0, versions=[], rest="")
    if d["crd"]:
        d["supported"] = text(api) == "apiextensions.k8s.io/v1"
        spec = get(root, "spec"); d["gk"] = "%s/%s" % (text(get(spec, "group")), text(get(spec, "names", "kind")))
        v = drop(spec, "validation"); d["top"] = schema_id(ids, v[1]) if v else 0
        for x in (get(spec, "versions") or dict(e=[]))["e"] or []:
            s = get(x, "schema"); o = get(s, "openAPIV3Schema")
            d["versions"].append(dict(name=text(get(x, "name")), schema=schema_id(ids, o) if o else 0))
            drop(x, "schema")
    d["rest"] = "%d" % ids(json.dumps([struct(t), sorted(notes(t))]))
    return d

def S01(ctx):
    model_check(ctx, "SchemaPatchRun", "SchemaPatchRunDeep" if ctx.thorough else None)
    rng = ctx.rng
    cases = [ctx.replay["case"]["input"]] if ctx.replay else [case(rng) for _ in range(700 if ctx.thorough else 260)]
    exe, yexe = build_driver(ctx, "gen"), build_driver(ctx, "yaml")
    def runs(manifests):
        ins = []
        for i, c in enumerate(cases):
            fs = dict(c["files"]); fs.update({"manifests/" + n: t for n, t in manifests[i].items()}); fs.update({"manifests/" + n: t for n, t in c["others"].items()})
            fs.setdefault("manifests/.keep", "")
            o = "".join("," + x for x in c["opts"])
            ins.append(dict(id=str(i), files=fs, gens=["schemapatch:manifests=@DIR@/manifests" + o, "crd" + (":" + o[1:] if o else "")], reps=1, seed=i, order="keep", subst=True))
        return run_sharded(ctx, exe, ins, args=("-fake",))
    one = runs([c["mans"] for c in cases])
    outs = [{n: t for n, t in one[str(i)]["reps"][0]["gens"][0]["files"].items()} for i in range(len(cases))]
    two = runs([dict(c["mans"], **o) for c, o in zip(cases, outs)])
    # every text that occurs, as trees
    texts = {}
    for i, c in enumerate(cases):
        for t in list(c["mans"].values()) + list(outs[i].values()) + list(one[str(i)]["reps"][0]["gens"][1]["files"].values()): texts.setdefault(t, len(texts))
    dumps = run_sharded(ctx, yexe, [dict(id=str(k), text=t, ops=[], json=[], docs=True) for t, k in texts.items()], shards=4)
    trees = {t: (dumps[str(k)]["docs"], dumps[str(k)]["bad"]) for t, k in texts.items()}
    recs = []
    for i, c in enumerate(cases):
        ids = Ids(); r1 = one[str(i)]["reps"][0]; g, crd = r1["gens"]; r2 = two[str(i)]["reps"][0]["gens"][0]
        if crd["err"] or crd["panic"]: raise CheckError("full generation: %s" % crd)
        go = []
        for t in crd["files"].values():
            root = trees[t][0][0]["e"][0]; spec = get(root, "spec")
            for v in get(spec, "versions")["e"]: go.append(dict(gk="%s/%s" % (text(get(spec, "group")), text(get(spec, "names", "kind"))), version=text(get(v, "name")), schema=schema_id(ids, get(v, "schema", "openAPIV3Schema"))))
        names = sorted(c["mans"]); ms, after, written = [], [], []
        for k, n in enumerate(names):
            ds, bad = trees[c["mans"][n]]
            ms.append(dict(docs=[] if bad else [project(ids, d, go) for d in ds]))
            if n in outs[i]: written.append(k); after.append(dict(docs=[project(ids, d, go) for d in trees[outs[i][n]][0]] if not trees[outs[i][n]][1] else []))
            else: after.append(ms[-1])
        written += [99 for n in outs[i] if n not in names]
        failed = bool(g["err"] or r1["errs"])
        recs.append(dict(ms=ms, go=go, after=after, written=written, failed=failed, panic=g["panic"] or "", stable=failed or (r2["files"] == g["files"] and not r2["err"] and not r2["panic"])))
    for i, why in judge(ctx, "SchemaPatchConf", recs):
        g = one[str(i)]["reps"][0]["gens"][0]
        ctx.violation("%s: %s" % (why, json.dumps(dict(err=g["err"], errs=one[str(i)]["reps"][0]["errs"], panic=g["panic"], before=cases[i]["mans"], after=outs[i]))[:1500]), dict(input=cases[i], observed=dict(out=outs[i], again=two[str(i)]["reps"][0]["gens"][0], rec=recs[i])))
    def patched(r): return not r["failed"] and any(d["crd"] and any(g["gk"] == d["gk"] and g["version"] == v["name"] for g in r["go"] for v in d["versions"]) for m in r["ms"] for d in m["docs"])
    ctx.count("manifests", sum(len(c["mans"]) for c in cases)); ctx.count("runs_with_patched_crds", sum(map(patched, recs))); ctx.count("runs_refused", sum(r["failed"] for r in recs))
    if not ctx.replay:
        good = [r for r in recs if patched(r)]
        if len(good) < len(cases) // 5: raise CheckError("too few patched CRDs: %d" % len(good))
        corrupt = []
        for k, r in enumerate(good[:8]):
            r = json.loads(json.dumps(r)); d = [d for m in r["after"] for d in m["docs"] if d["crd"] and d["versions"]][0]
            if k % 4 == 0: d["versions"][0]["schema"] = 999
            elif k % 4 == 1: d["rest"] = "x"
            elif k % 4 == 2: r["written"] = r["written"][1:]
            else: r["stable"] = False
            corrupt.append(r)
        demand_rejected(ctx, "SchemaPatchConf", corrupt, "altered manifests")
    for r in recs[:2]: ctx.sample(r)
