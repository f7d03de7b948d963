"""C06, C07: CustomResourceDefinitions from API types (pkg/crd/gen.go, pkg/crd/spec.go, pkg/crd/markers/crd.go)."""
import json, subprocess
from vlib import *
from schemas import canon

KINDS = {"Foo": "foos", "Bar": "bars", "Policy": "policies", "Box": "boxes", "Gateway": "gateways", "Person": "people", "HTTPRoute": "httproutes", "CronTab": "crontabs"}
GROUPS = ["a.example.com", "b.example.com", "x.io"]
VERSIONS = ["v1", "v1alpha1", "v1beta1", "v2", "v10", "v2beta1"]
META = "k8s.io/apimachinery/pkg/apis/meta/v1"
NONKIND = ["list", "plain", "typeonly", "objonly", "named", "fake", "fakeobj"]

def q(rng, s): return '"%s"' % s if s == "" or rng.random() < .5 or any(ch in s for ch in ":,;*= {}") else s
def ls(rng, xs): return ("{" + ",".join('"%s"' % x for x in xs) + "}") if rng.random() < .5 or len(xs) < 2 else ";".join(q(rng, x) for x in xs)
def marks(rng, bad, many):
    ms = []
    def add(m, text, **kw): ms.append((dict(m=m, **kw), text))
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 6])):
        c = dict(name=rng.choice(["Age", "Phase", "Ready", "A B"]), type=rng.choice(["string", "integer", "date"]), jsonPath=rng.choice([".status.phase", ".metadata.creationTimestamp", ".spec.x"]))
        t = "name=%s,type=%s,JSONPath=%s" % (q(rng, c["name"]), c["type"], q(rng, c["jsonPath"]))
        if rng.random() < .3: c["description"] = "A column"; t += ',description="A column"'
        if rng.random() < .3: c["format"] = rng.choice(["int32", "date"]); t += ",format=" + c["format"]
        if rng.random() < .3: c["priority"] = rng.choice([1, 5, -1]); t += ",priority=%d" % c["priority"]
        add("column", "kubebuilder:printcolumn:" + t, col=canon(c))
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        p = rng.choice([".spec.a", ".spec.b", ".status.c"]); add("selectable", "kubebuilder:selectablefield:JSONPath=" + q(rng, p), path=p)
    if rng.random() < .3: add("status", "kubebuilder:subresource:status")
    if rng.random() < .3:
        s = dict(spec=rng.choice([".spec.replicas", ".spec.n"]), status=rng.choice([".status.replicas", ".status.n"]), selector=rng.choice([[], [".status.selector"]]))
        add("scale", "kubebuilder:subresource:scale:specpath=%s,statuspath=%s%s" % (s["spec"], s["status"], ",selectorpath=" + s["selector"][0] if s["selector"] else ""), **s)
    if rng.random() < (.25 if many else .08): add("unserved", "kubebuilder:unservedversion")
    if rng.random() < .2: 
        w = rng.choice([[], ["do not use"], [""]]); add("deprecated", "kubebuilder:deprecatedversion" + (':warning="%s"' % w[0] if w else ""), warning=w)
    if rng.random() < (.3 if many else .06): add("skip", "kubebuilder:skipversion")
    return ms
def metadata(rng, bad):
    a, l = [], []
    if rng.random() < .7: a = rng.sample([["api-approved.kubernetes.io", "https://x/1"], ["one", "1"], ["empty", ""], ["eq", "a=b"], ["controller-gen.kubebuilder.io/version", "mine"]], rng.randint(1, 3))
    if rng.random() < .6: l = rng.sample([["app", "x"], ["l2", "y"], ["none", ""]], rng.randint(1, 2))
    if bad: rng.choice([a, l]).append(["novalue"])
    args = [k + "=" + "{" + ",".join('"%s"' % "=".join(x) for x in v) + "}" for k, v in (("annotations", a), ("labels", l)) if v]
    if not args: a = [["one", "1"]]; args = ['annotations="one=1"']
    return dict(m="metadata", annotations=a, labels=l), "kubebuilder:metadata:" + ",".join(args)
def resource(rng, kind):
    r = dict(m="resource", path=rng.choice(["", "", kind.lower() + "z", KINDS[kind], kind + "List"]), singular=rng.choice(["", "", "one" + kind.lower()]), short=rng.choice([[], [], ["f"], ["f", "fo"]]),
             categories=rng.choice([[], [], ["all"], ["all", "x"]]), scope=rng.choice(["", "", "Namespaced", "Cluster", "Cluster"]))
    a = [k + "=" + q(rng, r[f]) for k, f in (("path", "path"), ("singular", "singular"), ("scope", "scope")) if r[f]] + [k + "=" + ls(rng, r[f]) for k, f in (("shortName", "short"), ("categories", "categories")) if r[f]]
    rng.shuffle(a)
    return r, "kubebuilder:resource" + (":" + ",".join(a) if a else "")

def gen(rng, bad):
    npk = rng.choice([1, 2, 2, 3, 4])
    groups = rng.sample(GROUPS, rng.choice([1, 1, 2]))
    kinds = rng.sample(sorted(KINDS), rng.choice([1, 2, 3]))
    used, pkgs = set(), []
    for i in range(npk):
        g = [] if rng.random() < .1 else [rng.choice(groups)]
        v = rng.choice([x for x in VERSIONS if not g or (g[0], x) not in used])
        if g: used.add((g[0], v))
        pkgs.append(dict(group=g, version=v, rank=sorted(VERSIONS).index(v), skip=rng.random() < .08, types=[], imp=rng.choice(["metav1", "metav1", "meta", "v1", "."]), explicit=rng.random() < .5, dir="p%d" % i))
    byres = {}
    for p in pkgs:
        for k in kinds:
            if rng.random() < .7:
                gk = (tuple(p["group"]), k)
                ms = marks(rng, bad, sum(1 for x in pkgs if x["group"] == p["group"]) > 1)
                if rng.random() < .4:
                    # versions usually agree on the resource
                    r = byres.setdefault(gk, resource(rng, k)) if rng.random() < .8 else resource(rng, k)
                    ms.append(r)
                if rng.random() < .25: ms.append(metadata(rng, bad and rng.random() < .4))
                p["types"].append(dict(name=k, kind=True, shape=rng.choice(["kind", "kind", "swapped", "bare"]), desc=rng.choice(["", "%s is one in %s." % (k, p["dir"])]),
                                       props=sorted(rng.sample(["a", "b", "c", "x%s" % p["dir"]], rng.randint(1, 3))), ms=ms))
        for s in rng.sample(NONKIND, rng.choice([0, 1, 1, 2])):
            p["types"].append(dict(name=s.capitalize() + "Thing", kind=False, shape=s, desc="", props=[], ms=[x for x in marks(rng, False, True)] if rng.random() < .3 else []))
        rng.shuffle(p["types"])
    # one storage version for each kind with several kept versions (unless something has to fail), never two
    for g in groups:
        for k in kinds:
            kept = [t for p in pkgs if p["group"] == [g] and not p["skip"] for t in p["types"] if t["name"] == k and not any(m["m"] == "skip" for m, _ in t["ms"])]
            if len(kept) > 1 and not (bad and rng.random() < .3): rng.choice(kept)["ms"].append((dict(m="storage"), "kubebuilder:storageversion"))
            elif kept and rng.random() < .3: kept[0]["ms"].append((dict(m="storage"), "kubebuilder:storageversion"))
            if len(kept) >= 1 and not bad and all(any(m["m"] == "unserved" for m, _ in t["ms"]) for t in kept):
                t = rng.choice(kept); t["ms"] = [x for x in t["ms"] if x[0]["m"] != "unserved"]
    for p in pkgs:
        for t in p["types"]: rng.shuffle(t["ms"])
    opts = dict(versions=[], embedded=False, preserve=[], header=[], year="")
    gopt = []
    if rng.random() < .3: opts["versions"] = ["v1"]; gopt.append("crdVersions=v1")
    if bad and rng.random() < .25: opts["versions"] = [rng.choice(["v1beta1", "v2"])]; gopt = ["crdVersions=" + opts["versions"][0]]
    if rng.random() < .4: opts["embedded"] = rng.random() < .7; gopt.append("generateEmbeddedObjectMeta=" + str(opts["embedded"]).lower())
    if rng.random() < .2: opts["preserve"] = [rng.random() < .5]; gopt.append("deprecatedV1beta1CompatibilityPreserveUnknownFields=" + str(opts["preserve"][0]).lower())
    files = {}
    if rng.random() < .3:
        opts["header"] = ["# Copyright", " the authors.\n"] if rng.random() < .7 else ["# Copyright the authors.\n"]
        if rng.random() < .6: opts["year"] = "2031"; gopt.append('year="2031"')
        gopt.append('headerFile="@DIR@/boilerplate.txt"'); files["boilerplate.txt"] = " YEAR".join(opts["header"])
    nested = rng.random() < .5
    for p in pkgs: files.update(render(rng, p, nested))
    case = dict(pkgs=[dict(group=p["group"], version=p["version"], rank=p["rank"], skip=p["skip"], types=[dict(name=t["name"], kind=t["kind"], desc=t["desc"], props=t["props"], marks=[m for m, _ in t["ms"]]) for t in p["types"]]) for p in pkgs],
                opts=opts, plural=KINDS, lower={k: k.lower() for k in KINDS})
    return files, "crd" + (":" + ",".join(gopt) if gopt else ""), case

def render(rng, p, nested):
    name = p["version"] if not p["explicit"] else "pkg" + p["dir"]
    pm = (["// +groupName=" + p["group"][0]] if p["group"] else []) + (["// +versionName=" + p["version"]] if p["explicit"] else []) + (["// +kubebuilder:skip"] if p["skip"] else [])
    rng.shuffle(pm)
    M = "" if p["imp"] == "." else p["imp"] + "."
    nfiles = rng.choice([1, 2]); out = {}
    bodies = [""] * nfiles
    for t in p["types"]:
        b = ""
        ms = list(t["ms"]); pre = []
        if ms and rng.random() < .3: pre, ms = ms[:len(ms) // 2], ms[len(ms) // 2:]
        # markers before the documentation come first in source order; the two blocks keep the order of the sequence
        if pre: b += "".join("// +%s\n" % x for _, x in pre) + "\n"
        if t["desc"]: b += "// %s\n" % t["desc"]
        b += "".join("// +%s\n" % x for _, x in ms)
        tm, om = "\t%sTypeMeta `json:\",inline\"`\n" % M, "\t%sObjectMeta `json:\"metadata,omitempty\"`\n" % M
        if t["shape"] == "bare": om = "\t%sObjectMeta `json:\"metadata\"`\n" % M
        if rng.random() < .25: om = rng.choice(["\t// Standard metadata.\n", '\t// +kubebuilder:validation:XValidation:rule="self.name.size() < 10",message="short"\n', "\t// Documented.\n\t// +optional\n\t// +nullable\n"]) + om
        n = t["name"]; spec = "\tSpec %sSpec `json:\"spec\"`\n" % n
        f = {"kind": tm + om + spec, "swapped": om + tm + spec, "bare": tm + spec + om, "list": tm + "\t%sListMeta `json:\"metadata,omitempty\"`\n\tItems []string `json:\"items\"`\n" % M, "plain": "\tA string `json:\"a\"`\n", "typeonly": tm, "objonly": om,
             "named": "\tTypeMeta %sTypeMeta `json:\",inline\"`\n\tObjectMeta %sObjectMeta `json:\"metadata\"`\n" % (M, M), "fake": "\tFakes.TypeMeta `json:\",inline\"`\n\tFakes.ObjectMeta `json:\"metadata\"`\n", "fakeobj": tm + "\tFakes.ObjectMeta `json:\"metadata\"`\n"}[t["shape"]].replace("Fakes.", "fakes.")
        b += "type %s struct {\n%s}\n\n" % (n, f)
        if t["kind"]:
            b += "type %sSpec struct {\n" % n + "".join("\tF%s string `json:\"%s\"`\n" % (x, x) for x in t["props"]) + ("\tNest %sNest `json:\"nest,omitempty\"`\n" % n if nested else "") + "}\n\n"
            if nested: b += "type %sNest struct {\n\t%sObjectMeta `json:\"metadata,omitempty\"`\n}\n\n" % (n, M)
        bodies[rng.randrange(nfiles)] += b
    for i, b in enumerate(bodies):
        fake = "fakes." in b; meta = any(M + x in b for x in ("TypeMeta `", "ObjectMeta `", "ListMeta `", "TypeMeta TypeMeta", "ObjectMeta ObjectMeta"))
        if p["imp"] == ".": meta = any(x in b.replace("fakes.TypeMeta", "").replace("fakes.ObjectMeta", "") for x in ("TypeMeta", "ObjectMeta", "ListMeta"))
        head = ("\n".join(pm) + "\n\n" if i == 0 and rng.random() < .0 else "\n".join(pm) + "\n") if i == 0 and pm else ""
        out["%s/f%d.go" % (p["dir"], i)] = head + "package %s\n\n" % name + ("import %s \"%s\"\n" % (p["imp"], META) if meta else "") + ("import fakes \"@MOD@/fakes\"\n" if fake else "") + "\n" + b
    if any("fakes." in x for x in out.values()): out["fakes/f.go"] = "package fakes\ntype TypeMeta struct { Kind string `json:\"kind\"` }\ntype ObjectMeta struct { Name string `json:\"name\"` }\n"
    return out

def vget(d, known, extra, where):
    extra.extend(where + "." + k for k in d if k not in known)
def project(name, text):
    i = text.find("---\n"); docs = yload_all(text[i:])
    assert len(docs) == 1, docs
    d = docs[0]; extra = []
    vget(d, ("apiVersion", "kind", "metadata", "spec"), extra, "")
    if d["apiVersion"] != "apiextensions.k8s.io/v1" or d["kind"] != "CustomResourceDefinition": extra.append("apiVersion/kind")
    m, s = d["metadata"], d["spec"]
    vget(m, ("name", "annotations", "labels"), extra, "metadata"); vget(s, ("group", "names", "scope", "versions", "preserveUnknownFields"), extra, "spec")
    n = s["names"]; vget(n, ("kind", "listKind", "plural", "singular", "shortNames", "categories"), extra, "names")
    vs = []
    for v in s["versions"]:
        vget(v, ("name", "served", "storage", "schema", "deprecated", "deprecationWarning", "subresources", "additionalPrinterColumns", "selectableFields"), extra, "version")
        sub = v.get("subresources") or {}; vget(sub, ("status", "scale"), extra, "subresources")
        sc = sub.get("scale"); o = v["schema"]["openAPIV3Schema"]; sp = o["properties"].get("spec", {}).get("properties", {})
        if sc: vget(sc, ("specReplicasPath", "statusReplicasPath", "labelSelectorPath"), extra, "scale")
        nest = sp.get("nest", {}).get("properties", {}).get("metadata")
        vs.append(dict(name=v["name"], served=v["served"], storage=v["storage"], deprecated=v.get("deprecated", False), warning=[v["deprecationWarning"]] if "deprecationWarning" in v else [],
            status="status" in sub, scale=[dict(spec=sc["specReplicasPath"], status=sc["statusReplicasPath"], selector=[sc["labelSelectorPath"]] if "labelSelectorPath" in sc else [])] if sc else [],
            columns=[canon(c) for c in v.get("additionalPrinterColumns") or []], selectable=[c["jsonPath"] for c in v.get("selectableFields") or []], desc=o.get("description", ""), props=sorted(x for x in sp if x != "nest"),
            meta=json.dumps(o["properties"].get("metadata"), separators=(",", ":")), nested=["absent"] if nest is None else sorted(nest.get("properties", {}))))
    return dict(file=name, header=text[:i], group=s["group"], kind=n["kind"], list=n["listKind"], plural=n["plural"], singular=n["singular"], short=n.get("shortNames", []), categories=n.get("categories", []), scope=s["scope"], name=m["name"],
        annotations=[list(x) for x in sorted(m.get("annotations", {}).items())], labels=[list(x) for x in sorted(m.get("labels", {}).items())], extra=extra, preserve=[s["preserveUnknownFields"]] if "preserveUnknownFields" in s else [], versions=vs)

def observe(c, o):
    reps = {}
    for r in o["reps"]:
        g = r["gens"][0]
        reps[(bool(g["err"] or g["panic"] or g["regerr"] or r["errs"]), json.dumps(sorted(g["files"].items())))] = r
    return [dict(failed=f, files=[project(n, t) for n, t in json.loads(fs)]) for f, fs in sorted(reps)], [(r["errs"] or []) + [g["err"], g["panic"]] for r in o["reps"] for g in r["gens"]]

def run(ctx, prop):
    if prop == "C06":
        model_check(ctx, "CrdRun", "CrdRunDeep" if ctx.thorough else None)
        rc, out = tlc(ctx, "CrdRun", "CrdRunNaive", ok_codes=(12,), count=False)
    rng = ctx.rng; cases, want = [], []
    if ctx.replay: cases, want = [ctx.replay["case"]["input"]], [ctx.replay["case"]["case"]]
    else:
        for i in range(1600 if ctx.thorough else 320):
            f, g, c = gen(rng, rng.random() < (.35 if prop == "C06" else .2))
            cases.append(dict(id=str(i), files=f, gens=[g], reps=(6 if ctx.thorough else 3) if prop == "C06" else 1, seed=i, order="shuffle", subst=True)); want.append(c)
    exe = build_driver(ctx, "gen")
    if prop == "C07":
        r = subprocess.run([build_cmd(ctx, "controller-gen"), "--version"], capture_output=True, text=True, env=goenv())
        vers = [l[len("Version: "):] for l in r.stdout.splitlines() if l.startswith("Version: ")] if r.returncode == 0 else []
        if len(vers) != 1 or not vers[0]: return ctx.violation("--version says %r, exit %d" % (r.stdout[-300:] + r.stderr[-300:], r.returncode), dict(input=cases[0], case=want[0]), key="version")
        want = [dict(w, tool=vers[0]) for w in want]
    # a few with the real metav1, the others with a small stand-in that loads faster
    obs = run_sharded(ctx, exe, cases[:24], shards=2, args=() if not ctx.replay or ctx.replay["case"].get("real") else ("-fake",))
    if len(cases) > 24: obs.update(run_sharded(ctx, exe, cases[24:], args=("-fake",)))
    recs = []
    for c, w in zip(cases, want):
        reps, errs = observe(c, obs[c["id"]])
        recs.append(dict(w, reps=reps)); recs[-1]["errs"] = errs[0]
    ctx.count("generator_runs", sum(c["reps"] for c in cases)); ctx.count("runs_refused", sum(1 for r in recs if r["reps"][0]["failed"]))
    ctx.count("crd_files", sum(len(r["reps"][0]["files"]) for r in recs)); ctx.count("crd_versions", sum(len(f["versions"]) for r in recs for f in r["reps"][0]["files"]))
    for i, why in judge(ctx, "CrdSpecConf", recs, env=dict(PROP=prop)):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:1500]), dict(input=cases[i], case=want[i], real=i < 24, observed=recs[i]["reps"], errs=recs[i]["errs"]))
    good = [r for r in recs if not r["reps"][0]["failed"] and r["reps"][0]["files"]]
    corrupt = []
    for k, r in enumerate(good[:8]):
        c = json.loads(json.dumps(r)); f = c["reps"][0]["files"][0]
        if prop == "C06":
            v = f["versions"][0]
            if k % 4 == 0: v["served"] = not v["served"]
            elif k % 4 == 1: v["props"] = v["props"] + ["zz"]
            elif k % 4 == 2: v["columns"] = v["columns"] + ["{}"]
            else: c["reps"].append(dict(failed=False, files=[]))
        else:
            if k % 4 == 0: f["short"] = ["other"]
            elif k % 4 == 1: f["versions"][0]["meta"] = '{"description":"x","type":"object"}'
            elif k % 4 == 2: f["labels"] = f["labels"] + [["zz", "1"]]
            else: c["reps"][0]["files"].append(dict(f, kind="FooList"))
        corrupt.append(c)
    if not ctx.replay: demand_rejected(ctx, "CrdSpecConf", corrupt, "altered CRDs", env=dict(PROP=prop))
    for r in good[:2]: ctx.sample(dict(options=r["opts"], pkgs=r["pkgs"]))

def C06(ctx): run(ctx, "C06")
def C07(ctx): run(ctx, "C07")
