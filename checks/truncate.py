"""C08: limiting the length of descriptions (pkg/crd/desc_visitor.go, pkg/crd/schema_visitor.go)."""
import json
from vlib import *
from schemas import canon

ENDS = ".!?\u3002\u061f\u0589"; SPACES = " \n\t\u00a0\u3000\u2003"; OTHER = "abcXYZ,;:-_019\u00e9\u4e16\U0001f600"
def kind(ch): return "end" if ch in ENDS else "space" if ch in SPACES else "other"
def chars(s): return [dict(c=ch, w=len(ch.encode()), k=kind(ch)) for ch in s]
def text(rng, src=False):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 80]) if not src else rng.choice([0, 4, 9, 20, 40])
    style = rng.random(); t = ""
    for _ in range(n):
        x = rng.random()
        t += rng.choice(ENDS) if x < (.08 if style < .6 else .0) else rng.choice(SPACES) if x < (.25 if style < .8 else 0) else rng.choice(OTHER)
    if src: t = t.replace("\n", " ").replace("\t", " ").strip(" \u00a0\u3000\u2003+-")
    return t
PLAIN = {"x-kubernetes-preserve-unknown-fields": True, "x-kubernetes-embedded-resource": True, "x-kubernetes-int-or-string": True, "nullable": True, "format": "date", "pattern": "^a",
    "maxLength": 3, "minLength": 1, "maximum": 5, "exclusiveMaximum": True, "minimum": 1, "exclusiveMinimum": True, "multipleOf": 2, "maxItems": 4, "minItems": 1, "uniqueItems": True, "maxProperties": 4, "minProperties": 1,
    "x-kubernetes-list-type": "map", "x-kubernetes-list-map-keys": ["description"], "x-kubernetes-map-type": "atomic", "$ref": "#/definitions/description", "id": "i", "$schema": "s"}
def schema(rng, depth, names=("a", "b", "description")):
    s = {}
    if rng.random() < .8: s["description"] = text(rng)
    if rng.random() < .6: s["type"] = rng.choice(["object", "string", "array"])
    if rng.random() < .3: s["title"] = text(rng) or "t"
    if rng.random() < .2: s["default"] = {"description": text(rng), "x": [{"description": "a. b c"}]}
    if rng.random() < .15: s["enum"] = [text(rng), {"description": "a. b c"}]
    if rng.random() < .15: s["example"] = {"description": "a long. example text"}
    if rng.random() < .15: s["externalDocs"] = {"description": "Documents. Elsewhere and so on", "url": "u"}
    if rng.random() < .2: s["x-kubernetes-validations"] = [{"rule": "self", "message": "A long. message text"}]
    if rng.random() < .2: s["required"] = ["a"]
    for k in rng.sample(sorted(PLAIN), rng.choice([0, 0, 0, 1, 1, 2, 4])): s.setdefault(k, PLAIN[k])
    if depth == 0: return s
    sub = lambda: schema(rng, depth - 1)
    kids = lambda: {n: sub() for n in rng.sample(names, rng.randint(1, len(names)))}
    for k in rng.sample(["properties", "properties", "items", "itemlist", "allOf", "oneOf", "anyOf", "not", "additionalProperties", "patternProperties", "dependencies", "additionalItems", "definitions"], rng.choice([0, 1, 1, 2, 3])):
        if k in ("properties", "patternProperties", "definitions"): s[k] = kids()
        elif k == "dependencies": s[k] = {n: rng.choice([sub(), ["a", "b"]]) for n in rng.sample(names, 2)}
        elif k == "itemlist": s["items"] = [sub() for _ in range(rng.randint(1, 2))]
        elif k in ("allOf", "oneOf", "anyOf"): s[k] = [sub() for _ in range(rng.randint(1, 2))]
        elif k in ("additionalProperties", "additionalItems"): s[k] = rng.choice([sub(), sub(), True, False])
        else: s[k] = sub()
    return s
def tree(s, desc):
    rest, kids = {}, []
    for k in sorted(s):
        v = s[k]
        if k == "description": continue
        if k in ("properties", "patternProperties", "definitions", "dependencies"):
            for n in sorted(v):
                if isinstance(v[n], dict): kids.append([k + ":" + n, tree(v[n], desc)])
                else: rest[k + ":" + n] = v[n]
        elif k in ("items", "allOf", "oneOf", "anyOf") and isinstance(v, list): kids += [["%s:%d" % (k, i), tree(x, desc)] for i, x in enumerate(v)]
        elif k in ("items", "not", "additionalProperties", "additionalItems") and isinstance(v, dict): kids.append([k, tree(v, desc)])
        else: rest[k] = v
    return dict(desc=desc(s.get("description", "")), rest=canon(rest), kids=kids)

def source(rng):
    """A package with a kind whose types are documented."""
    def doc(ind=""):
        t = text(rng, True)
        return ind + "// " + t + "\n" if t else ""
    b = "// +groupName=x.io\npackage v1\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n"
    b += doc() + "// +kubebuilder:printcolumn:name=A,type=string,JSONPath=.spec.a,description=\"A long. column text\"\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n" + doc("\t") + rng.choice(["", "", "\t// +kubebuilder:pruning:PreserveUnknownFields\n", "\t// +kubebuilder:validation:EmbeddedResource\n", "\t// +nullable\n"]) + "\tSpec Spec `json:\"spec\"`\n}\n\n"
    b += doc() + "type Spec struct {\n" + doc("\t") + "\tA string `json:\"a\"`\n" + doc("\t") + "\t// +kubebuilder:default={description: \"some. text here\"}\n\tM map[string]Sub `json:\"m\"`\n" + doc("\t") + "\tL []Sub `json:\"l\"`\n" + doc("\t") + "\tSub `json:\",inline\"`\n" + doc("\t") + "\tT metav1.Time `json:\"t\"`\n" + doc("\t") + "\tDescription *Sub `json:\"description,omitempty\"`\n}\n\n"
    b += doc() + "// +kubebuilder:validation:XValidation:rule=\"self\",message=\"A long. message text\"\ntype Sub struct {\n" + doc("\t") + "\tX string `json:\"x\"`\n" + doc("\t") + "\t// +kubebuilder:validation:items:Enum=a;b\n\tY []string `json:\"y,omitempty\"`\n}\n"
    return b

def C08(ctx):
    model_check(ctx, "TruncateRun", "TruncateRunDeep" if ctx.thorough else None)
    rng = ctx.rng; cases, gcases = [], []
    if ctx.replay:
        i = ctx.replay["case"]["input"]; (gcases if "gens" in i else cases).append(i)
    else:
        for i in range(12000 if ctx.thorough else 2500):
            s = schema(rng, rng.choice([0, 0, 1, 2, 3]))
            lens = [len(x.encode()) for x in [s.get("description", "")]]
            lim = rng.choice([-1, 0, 1, 2, 3, 5, 8, 13, 21, 40, 100, lens[0], max(0, lens[0] - 1), lens[0] + 1])
            cases.append(dict(id=str(i), mode="trunc", schema=s, max=lim))
        for i in range(120 if ctx.thorough else 24):
            gcases.append(dict(id="g%d" % i, files={"v1/a.go": source(rng)}, gens=["crd", "crd:maxDescLen=%d" % rng.choice([-1, 0, 0, 1, 3, 6, 10, 17, 25, 60])], reps=1, seed=1, order="keep", subst=False))
    recs, back = [], []
    if cases:
        obs = run_sharded(ctx, build_driver(ctx, "crd"), cases)
        for c in cases:
            o = obs[c["id"]]
            if o.get("panics"): ctx.violation("panic: %s" % o["panics"], dict(input=c)); continue
            recs.append(dict(lim=c["max"], before=tree(o["in"], chars), after=tree(o["out"], str))); back.append(c)
    if gcases:
        obs = run_sharded(ctx, build_driver(ctx, "gen"), gcases, shards=2)
        for c in gcases:
            r = obs[c["id"]]["reps"][0]; t = []
            for g in r["gens"]:
                if g["err"] or g["panic"] or r["errs"] or list(g["files"]) != ["x.io_foos.yaml"]: raise CheckError("generation failed: %s %s" % (g, r["errs"]))
                d = yload_all(list(g["files"].values())[0])[0]
                sch = d["spec"]["versions"][0].pop("schema")["openAPIV3Schema"]
                t.append((sch, canon(d)))
            if t[0][1] != t[1][1]: ctx.violation("the limit changes something outside of schemas", dict(input=c))
            lim = int(c["gens"][1].split("=")[1])
            recs.append(dict(lim=lim, before=tree(t[0][0], chars), after=tree(t[1][0], str))); back.append(c)
    ctx.count("generator_runs", 2 * len(gcases))
    for i, why in judge(ctx, "TruncateConf", recs, chunk=4000):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:1200]), dict(input=back[i], observed=recs[i]["after"]))
    corrupt = []
    if not ctx.replay:
        for r in [r for r in recs if len(r["after"]["desc"]) > 1][:6]:
            c = json.loads(json.dumps(r)); c["after"]["desc"] = c["after"]["desc"][:-1] + "#"; corrupt.append(c)
        for r in [r for r in recs if r["after"]["kids"]][:6]:
            c = json.loads(json.dumps(r)); c["after"]["kids"][0][1]["rest"] = '{"title":"#"}'; corrupt.append(c)
        demand_rejected(ctx, "TruncateConf", corrupt, "altered schemas")
    for r in recs[:3]: ctx.sample(dict(lim=r["lim"], desc="".join(x["c"] for x in r["before"]["desc"]), after=r["after"]["desc"]))
