"""Y01: edits of YAML trees (pkg/schemapatcher/internal/yaml)."""
import json
from vlib import *

KEYS = ["a", "b", "spec", "versions", "name", "schema", "x y", "1", "true", "null", "a.b", "openAPIV3Schema", "-", "é"]
def q(rng, s):
    x = rng.random()
    if s in ("-", "null", "1", "true") and x < .5 or s == "-" or x < .15: return json.dumps(s, ensure_ascii=False)
    if x < .3: return "'" + s + "'"
    return s
SCALARS = ["x", "1", "true", "null", "~", '"quoted"', "'single'", "2001-01-01", "0x1F", "1.5", "some words", "\"a: b # c\"", "-1", "''", "v1"]
def comment(rng, p=.12): return "  # note %d" % rng.randint(0, 99) if rng.random() < p else ""
def head(rng, ind, p=.1): return ["%s# about %d" % (ind, rng.randint(0, 99))] if rng.random() < p else []
def flow(rng, d):
    x = rng.random()
    if d >= 2 or x < .4: return rng.choice(SCALARS[:3] + SCALARS[5:7] + ["v1"]), ("s",)
    if x < .7:
        ks = rng.sample(KEYS[:6], rng.randint(0, 2)); sub = [flow(rng, d + 1) for _ in ks]
        return "{" + ", ".join("%s: %s" % (k, t) for k, (t, _) in zip(ks, sub)) + "}", ("m", {k: s for k, (_, s) in zip(ks, sub)})
    sub = [flow(rng, d + 1) for _ in range(rng.randint(0, 2))]
    return "[" + ", ".join(t for t, _ in sub) + "]", ("q",)
def value(rng, d, ind):
    """Lines for a value of a mapping entry or list item: (inline part, further lines, shape)."""
    x = rng.random()
    if d >= 4 or x < .35: return " " + rng.choice(SCALARS) + comment(rng), [], ("s",)
    if x < .4: return comment(rng), [], ("s",)
    if x < .46: return rng.choice([" |", " >", " |-", " >-"]), [ind + "  text\n" + ind + "  more: text"], ("s",)
    if x < .56: t, s = flow(rng, 0); return " " + t + comment(rng), [], s
    if x < .84: l, s = mapping(rng, d + 1, ind + rng.choice(["  ", "    "])); return comment(rng), l, s
    out = []; i2 = ind + rng.choice(["", "  "])
    for _ in range(rng.randint(1, 3)):
        a, l, _ = value(rng, d + 2, i2 + "  ")
        out += head(rng, i2) + [i2 + "-" + (a or " x")] + l
    return comment(rng), out, ("q",)
def mapping(rng, d, ind):
    lines, shape = [], {}
    for k in rng.sample(KEYS, rng.choice([1, 1, 2, 3, 4])):
        a, l, s = value(rng, d, ind); lines += head(rng, ind) + [ind + q(rng, k) + ":" + a] + l; shape[k] = s
    return lines, ("m", shape)
def doc(rng):
    x = rng.random()
    if x < .02: return "", ("s",)
    if x < .05: return rng.choice(["x\n", "- a\n- b\n", "{}\n", "[]\n", "# only a comment\n"]), ("s",)
    l, s = mapping(rng, 0, "")
    pre = rng.choice(["", "", "# file\n", "# file\n\n", "---\n", "# file\n---\n"])
    return pre + "\n".join(l) + "\n" + rng.choice(["", "", "# end\n"]), s
def path(rng, shape):
    p = []
    while shape[0] == "m" and shape[1] and rng.random() < .75:
        k = rng.choice(sorted(shape[1])); p.append(k); shape = shape[1][k]
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])): p.append(rng.choice(KEYS))
    return p
VALS = ["new", "{}", "{a: 1, b: {c: 2}}", "[1, 2]", "\"1\"", "null", "# c\nk: v # d\n", "a:\n  - b\n  - c: d\n", "|\n  text\n"]
def json_value(rng, d=0):
    x = rng.random()
    if d > 3 or x < .5: return rng.choice(["", "a", "true", "null", "1", "1.5", "0x1f", "~", "a\nb", "a\n", " lead", "trail ", "a: b", "# c", "- x", "{", "é", "\U0001f600", "tab\there", "\"q\"", "<a&b>", "2001-01-01", "line\n\n  indented\nend\n", "  two\nlines", "=", "y", "no", 0, 1, -7, 2**40, 1.5, -0.25, True, False, None, "long " * 40])
    if x < .75: return {rng.choice(["a", "b", "1", "true", "x y", "", "null", "$ref", "="]): json_value(rng, d + 1) for _ in range(rng.randint(0, 3))}
    return [json_value(rng, d + 1) for _ in range(rng.randint(0, 3))]

def Y01(ctx):
    model_check(ctx, "YamlTreeRun")
    if ctx.thorough: model_check(ctx, "YamlTreeRun", "YamlTreeRunDeep")
    rng = ctx.rng; cases = []
    if ctx.replay: cases = [ctx.replay["case"]["input"]]
    else:
        for i in range(6000 if ctx.thorough else 900):
            text, shape = doc(rng); ops = []; last = []
            for _ in range(rng.randint(1, 6)):
                op = rng.choice(["get", "set", "set", "set", "del", "del"]); p = path(rng, shape) if rng.random() < .75 or not last else rng.choice(last)
                if rng.random() < .05: p = []
                ops.append(dict(op=op, path=p, val=rng.choice(VALS))); last.append(p); last.append(p[:-1])
            cases.append(dict(id=str(i), text=text, ops=ops, json=[json.dumps(json_value(rng)) for _ in range(2)]))
    obs = run_sharded(ctx, build_driver(ctx, "yaml"), cases, shards=4)
    recs, src = [], []
    for c in cases:
        o = obs[c["id"]]
        if o["bad"]: ctx.count("documents_refused_by_the_parser"); continue
        for s in o["steps"]:
            s = dict(s, what="edit", written=writable(s["after"]))
            for k in ("before", "after", "reread", "got", "val"): s[k] = fix(s[k])
            recs.append(s); src.append((c, s))
        for s in o["convs"]:
            # what JSON means is the same whatever the order of keys and the form of numbers
            recs.append(dict(what="conv", err=s["err"], json=norm(s["json"]), back=norm(s["back"]), again=norm(s["again"]), plain=s["plain"])); src.append((c, recs[-1]))
    if len(recs) < len(cases): raise CheckError("most documents are refused")
    for i, why in judge(ctx, "YamlConf", recs, chunk=6000):
        c, s = src[i]
        ctx.violation("%s: %s" % (why, json.dumps({k: s[k] for k in ("op", "path", "err", "text") if k in s} if s["what"] == "edit" else s)[:700]), dict(input=c, observed=s))
    ctx.count("edits", sum(r["what"] == "edit" for r in recs)); ctx.count("conversions", sum(r["what"] == "conv" for r in recs)); ctx.count("errors", sum(r["err"] != "" for r in recs))
    if not ctx.replay:
        good = [r for r in recs if r["what"] == "edit" and r["op"] in ("set", "del") and r["err"] == "" and len(tree(r["after"])["e"]) > 2][:9]; corrupt = []
        for k, r in enumerate(good):
            r = json.loads(json.dumps(r)); t = tree(r["after"])
            if k % 3 == 0: t["e"] = t["e"][2:] + t["e"][:2]
            elif k % 3 == 1: t["e"][0]["c"] += "!"
            else: r["err"] = "error"
            corrupt.append(r)
        demand_rejected(ctx, "YamlConf", corrupt, "altered trees")
    for c in cases[-3:]: ctx.sample(c)
def writable(t):
    """What yaml.v3 can write: not a document without content, nor an emptied mapping below a key with a comment."""
    if t["k"] == "none": return False
    return all(writable(e) and not (t["k"] == "map" and i % 2 and not e["e"] and e["k"] in ("map", "seq") and (e["c"] or t["e"][i - 1]["c"])) for i, e in enumerate(t["e"] or []))
def tree(t): return t["e"][0] if t["k"] == "doc" and t["e"] else t
def fix(t): return dict(t, e=[fix(x) for x in t["e"] or []])
def norm(s):
    try: return json.dumps(json.loads(s), sort_keys=True)
    except ValueError: return s
