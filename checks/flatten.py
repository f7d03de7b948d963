"""C01, C02: flattening of schemas (pkg/crd/flatten.go, schema_visitor.go, parser.go)."""
import json, random
from vlib import *
from schemas import proj

IMPORTS = {"a": ["b", "c"], "b": ["c"], "c": []}
def refs_from(p, names): return [n for n in names if n[0] == p or n[0] in IMPORTS[p]]
def ref_text(p, n): return "@" + n          # the driver makes the library's references of these
def ref_name(p): return lambda r: r[1:]

KEYWORDS = [("maxLength", [1, 2, 3]), ("minLength", [0, 1]), ("pattern", ["^a", "b$"]), ("format", ["x", "int32"]), ("enum", [["a"], ["a", "b"], [1]]),
    ("maximum", [5, 7, 1.5]), ("minimum", [-1, 2]), ("multipleOf", [2, 3]), ("maxItems", [1, 9]), ("minItems", [1]), ("uniqueItems", [True]),
    ("maxProperties", [4]), ("minProperties", [1, 2]), ("default", ["d", {"x": 1}]), ("nullable", [True]), ("x-kubernetes-list-type", ["set", "map"]),
    ("x-kubernetes-list-map-keys", [["k"], ["k", "l"]]), ("x-kubernetes-map-type", ["atomic", "granular"]), ("x-kubernetes-preserve-unknown-fields", [True]),
    ("x-kubernetes-embedded-resource", [True]), ("x-kubernetes-int-or-string", [True])]
class G:
    def __init__(s, rng, p, names, same, refs, keytypes={}):
        s.rng, s.p, s.names, s.same, s.refs, s.nrule, s.keytypes = rng, p, names, same, refs, 0, keytypes
    def simple(s, n, items=False):
        r = {}
        for k, vs in s.rng.sample(KEYWORDS, min(n, len(KEYWORDS))):
            if items and k == "x-kubernetes-map-type": continue
            r[k] = s.rng.choice(vs)
            if k in ("maximum", "minimum") and s.rng.random() < .4: r["exclusive" + k.capitalize()] = True
        return r
    def schema(s, d, typ=None, items=False, root=False):
        rng = s.rng; r = s.simple(rng.choice([0, 0, 1, 1, 2, 3]), items)
        if rng.random() < .2: r["description"] = rng.choice(["one", "two", "three"])
        if rng.random() < .1: r[rng.choice(["title", "example"])] = rng.choice(["one", "two"])
        if rng.random() < .04: r["externalDocs"] = {"description": rng.choice(["one", "two"]), "url": "u"}
        if rng.random() < .2: s.nrule += 1; r["x-kubernetes-validations"] = [{"rule": rng.choice(["same", "r%d" % s.nrule])} for _ in range(rng.choice([1, 2]))]
        cands = refs_from(s.p, s.names)
        if rng.random() < s.refs and cands and not root:
            r["$ref"] = ref_text(s.p, rng.choice(cands)); return r
        typ = typ or rng.choice(["object"] * 3 + [rng.choice(["string", "string", "integer", "number", "boolean"]), "array", ""])
        if typ == "object" or rng.random() < .1:
            if d > 0 and rng.random() < .8:
                ks = rng.sample(["x", "y", "z"], rng.choice([1, 2, 2]))
                r["properties"] = {k: s.schema(d - 1, s.keytypes.get(k), items=items) for k in ks}
                if rng.random() < .5: r["required"] = rng.sample(ks, rng.choice([1, len(ks)]))
            elif d > 0: r["additionalProperties"] = s.schema(d - 1, items=items) if rng.random() < .8 else True
        if typ == "array" and d > 0: r["items"] = s.schema(d - 1, items=True)
        if typ and rng.random() < .8: r["type"] = s.kind(typ)
        if d > 0 and rng.random() < (.5 if root else .25): r["allOf"] = [s.schema(d - 1, typ if s.same else None, items) for _ in range(rng.choice([1, 2, 2, 3]))]
        if d > 0 and rng.random() < .08: r[rng.choice(["anyOf", "oneOf"])] = [s.schema(d - 1, items=True) for _ in range(2)]
        if d > 0 and rng.random() < .04: r["not"] = s.schema(d - 1, items=True)
        return r
    def kind(s, t): return t

def mk(rng, big):
    n = rng.choice([1, 2, 3, 3, 4] if not big else [3, 4, 5])
    names = []
    for i in range(n): names.append("%s.%s" % (rng.choice("aaabbc"), rng.choice(["T%d" % i, "T%d" % i, "S"])))
    names = sorted(set(names))
    same = rng.random() < .8
    refs = rng.choice([0, .3, .5, .7]) if n > 1 else rng.choice([0, .3])
    # properties of one name often have one type in all the structs
    keytypes = {k: rng.choice(["string", "integer", "number", "boolean", "array", "object"]) for k in "xyz" if rng.random() < .6} if same else {}
    raw = {}
    cyc = big or rng.random() < .5       # with or without references in cycles
    for i, t in enumerate(names):
        allowed = names if cyc else names[i + 1:]
        g = G(rng, t[0], allowed, same, refs, keytypes)
        if rng.random() < .12 and refs_from(t[0], names[i + 1:]):     # a name for another type
            raw[t] = dict(g.simple(rng.choice([0, 1])), **{"$ref": ref_text(t[0], rng.choice(refs_from(t[0], names[i + 1:])))})
            if rng.random() < .5: raw[t][rng.choice(["description", "description", "title", "example"])] = "alias"
        elif big:
            raw[t] = {"type": "object", "properties": {"f%d" % k: dict({"$ref": ref_text(t[0], x)}, **(g.simple(1) if rng.random() < .2 else {})) for k, x in
                      enumerate(rng.sample(refs_from(t[0], names), rng.randint(0, len(refs_from(t[0], names)))))}}
        else: raw[t] = g.schema(rng.choice([1, 2, 2, 3]), root=True)
    orders = [[t] for t in names]
    for _ in range(3):
        o = list(names); rng.shuffle(o)
        orders.append(o + ([rng.choice(names)] if rng.random() < .3 else []))
    return dict(mode="flat", raw=raw, orders=orders)

def chain_case():
    """Names that are equal as texts in several packages."""
    return dict(mode="flat", orders=[["a.R"], ["a.S", "a.R"], ["b.S", "b.U", "a.R"]], raw={"a.R": {"type": "object", "properties": {"x": {"$ref": ref_text("a", "a.S"), "maxLength": 3}}},
        "a.S": {"$ref": ref_text("a", "b.U")}, "b.U": {"$ref": ref_text("b", "b.S"), "minLength": 1}, "b.S": {"$ref": ref_text("b", "c.S")}, "c.S": {"type": "string", "pattern": "^s"}})

def record(c, o):
    return dict(types=[[t, proj(c["raw"][t], ref_name(t[0]))] for t in sorted(c["raw"])],
                runs=[[dict(type=a["type"], flat=proj(a["flat"]), failed=bool(a["errs"]), panic=a["panic"], kept=a["kept"]) for a in r] for r in o["runs"]])

def run(ctx, prop):
    if not ctx.replay:
        if prop == "C01": model_check(ctx, "FlattenMerge", "FlattenMergeWide" if ctx.thorough else None, timeout=800)
        else:
            model_check(ctx, "FlattenRun", "FlattenRunDeep" if ctx.thorough else None, timeout=800)
            rc, out = tlc(ctx, "FlattenRun", "FlattenRunNaive", ok_codes=(12,), count=False)   # keeping every result would be wrong
            ctx.count("design_errors_found_by_TLC_when_planted")
    rng = ctx.rng
    if ctx.replay: cases = [ctx.replay["case"]]
    else:
        n = 30000 if ctx.thorough else 4000
        cases = [chain_case()] + [mk(rng, rng.random() < (.1 if prop == "C01" else .4)) for _ in range(n)]
    for i, c in enumerate(cases): c["id"] = str(i)
    exe = build_driver(ctx, "crd")
    obs = run_sharded(ctx, exe, cases)
    recs = [record(c, obs[c["id"]]) for c in cases]
    ctx.count("flattened_schemas", sum(len(r) for x in recs for r in x["runs"]))
    ctx.count("asks_refused", sum(a["failed"] for x in recs for r in x["runs"] for a in r))
    for i, why in judge(ctx, "FlattenConf", recs, env=dict(PROP=prop), chunk=6000):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:1500]), cases[i])
    if not ctx.violations and not ctx.replay:
        bad = []
        for r in recs:
            if len(bad) >= 8: break
            c = json.loads(json.dumps(r)); a = c["runs"][-1][0]
            if a["failed"] or not a["flat"]["c"] or a["flat"]["all"]: continue
            if prop == "C01": a["flat"]["c"] = [[k, v + "0"] for k, v in a["flat"]["c"]]
            elif len(bad) % 2: a["flat"]["subs"] = a["flat"]["subs"] + [["p:zz", dict(a["flat"], ref="a.T0")]]
            else: a["kept"] = "changed"
            bad.append(c)
        demand_rejected(ctx, "FlattenConf", bad, "keyword values changed / references left / caches changed", env=dict(PROP=prop))
    for r in recs[:3]: ctx.sample(r)

def C01(ctx): run(ctx, "C01")
def C02(ctx): run(ctx, "C02")
