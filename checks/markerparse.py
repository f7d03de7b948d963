"""M01, M02: the marker language."""
import json, re
from vlib import *

KINDS = ["int", "i32", "num", "str", "bool"]
def ty(k, *of, ptr=False): return dict(k=k, of=list(of), ptr=ptr)
def rand_type(rng, depth=2, item=False):
    r = rng.random()
    if depth and r < .3: return ty("slice", rand_type(rng, depth - 1, True), ptr=False)
    if depth and r < .4: return ty("map", rand_type(rng, depth - 1, True))
    if r < .55: return ty("any")
    return ty(rng.choice(KINDS), ptr=not item and rng.random() < .2)

INTS = ["0", "1", "7", "42", "-1", "-17", "2147483647", "-2147483648"]
BIG = ["2147483648", "-2147483649", "4294967296", "9223372036854775807"]
NUMS = ["1.5", "-0.25", "3", "-2", "100", "0.125", "12345.678", "0"]
WORDS = ["abc", "x-y", "a/b", "v1", "two words", "tr", "fal", "falsey", "a.b.c", "a=b", "(x)", "a|b", "x  y", "-", "*", "it's", "#x", "a\"b,c\"d", "{x", "[a]", "Pending",
         "true-ish", "ab ", " cd"]
QUOTED = ["", " ", "a,b", "x;y", "k:v", "}", "{}", "a}b", "12", "true", "q\"t", "b\\s", "l\nm", "t\tu", "-5", "it's", "a=b,c=d", "  pad "]
PLAINNUM = ["12", "true", "false", "9ab", "1.2.3", "-5", "1.5"]      # strings only where the type says so

def rand_val(rng, t, depth=3):
    """A value: (k, payload)."""
    k = t["k"]
    if k == "any":
        r = rng.random()
        if depth and r < .25:
            e = rng.choice(["int", "num", "str", "bool", "slice", "map"] if depth > 1 else ["int", "str", "bool"])
            it = ty(e) if e not in ("slice", "map") else None
            n = rng.randint(1, 3)
            if e == "num": return ("slice", [("num", rng.choice([x for x in NUMS if "." in x])) for _ in range(n)])
            if it: return ("slice", [rand_val(rng, it, depth - 1) for _ in range(n)])
            if e == "slice":
                it = ty(rng.choice(["int", "str", "bool"]))
                return ("slice", [("slice", [rand_val(rng, it, 0) for _ in range(rng.randint(1, 2))]) for _ in range(n)])
            return ("slice", [("map", {w: rand_val(rng, ty("any"), depth - 2) for w in rng.sample(["a", "b", "c,d", "e:"], rng.randint(0 if j else 1, 2))}) for j in range(n)])
        if depth and r < .4:
            return ("map", {w: rand_val(rng, ty("any"), depth - 1) for w in rng.sample(["a", "bee", "c,d", "e:", "f g", "", "}"], rng.randint(0, 3))})
        k = rng.choice(["int", "num", "str", "bool"])
        if k == "num": return ("num", rng.choice([x for x in NUMS if "." in x]))
    if k in ("int", "i32"): return ("int", rng.choice(INTS + (BIG[-1:] if k == "int" and rng.random() < .2 else [])))
    if k == "num": return ("num", rng.choice(NUMS))
    if k == "bool": return ("bool", rng.random() < .5)
    if k == "str": return ("str", rng.choice(WORDS + QUOTED))
    if k == "raw": return ("raw", rng.choice(WORDS + QUOTED[1:] + PLAINNUM + ["a,b=c:d;e", "{", "\"", "`x", "0x", "09", "package", "register, true"]))
    if k == "slice": return ("slice", [rand_val(rng, t["of"][0], depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    if k == "map": return ("map", {w: rand_val(rng, t["of"][0], depth - 1) for w in rng.sample(["a", "bee", "c,d", "e:", "f g", "9"], rng.randint(0, 3))})

def canon(v):
    k, x = v
    if k == "int": return "i" + x
    if k == "num": return "n" + x
    if k == "bool": return "bT" if x else "bF"
    if k in ("str", "raw"): return "s%d:%s" % (len(x), x)
    if k == "slice": return "[" + "|".join(canon(e) for e in x) + "]"
    if k == "map": return "{" + "|".join("s%d:%s=%s" % (len(n), n, canon(x[n])) for n in sorted(x)) + "}"

def quote(rng, x):
    if "`" not in x and "\n" not in x and rng.random() < .3: return "`" + x + "`"
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
BARE = re.compile(r"^[^\s,;:}\"`]([^,;:}\"`\n\t]*[^\s,;:}\"`])?$")
def sp(rng): return rng.choice(["", "", "", " ", "  "])
def render(rng, v, t, guessed=False, legacy_ok=True, last=True):
    """A text for the value. guessed: the type must be recognisable from the text."""
    k, x = v
    guessed = guessed or t["k"] == "any"
    if k == "raw": return x
    if k == "int": return sp(rng) + x
    if k == "num": return sp(rng) + x
    if k == "bool": return sp(rng) + ("true" if x else "false")
    if k == "str":
        bare = BARE.match(x) or x == 'a"b,c"d'
        if guessed and (x[:1] in "{-'0123456789." or re.search(r"\d[eExXoObBpP_]|(^|\D)0\d", x) or x.split("-")[0] in ("true", "false") or x[:1] == "'"): bare = False
        if bare and rng.random() < .6: return sp(rng) + x
        return sp(rng) + quote(rng, x)
    it = t["of"][0] if t["of"] else ty("any")
    if k == "slice":
        # the brace-less form does not nest, and an element that opens a brace would be taken for the braced form
        flat = all(e[0] in ("int", "num", "str", "bool") for e in x)
        if legacy_ok and flat and len(x) >= (2 if guessed else 1) and rng.random() < .4:
            parts = [render(rng, e, it, guessed, False) for e in x]
            if not parts[0].lstrip().startswith("{"):
                return (sp(rng) + ";").join(parts) if not guessed else ";".join(parts)
        parts = [render(rng, e, it, guessed, False) for e in x]
        if parts and guessed and x[0][0] == "slice" and not x[0][1]: return None
        return sp(rng) + "{" + ",".join(p + sp(rng) for p in parts) + ("," if parts and rng.random() < .05 else "") + sp(rng) + "}"
    if k == "map":
        names = list(x); rng.shuffle(names)
        out = []
        for n in names:
            kt = n if BARE.match(n) and (not guessed or not n[0].isdigit()) and rng.random() < .5 else quote(rng, n)
            # inside a map, a guessed value never uses the brace-less slice form (the next comma belongs to the map)
            out.append(sp(rng) + kt + sp(rng) + ":" + render(rng, x[n], it, guessed, not guessed and it["k"] == "slice") + sp(rng))
        return sp(rng) + "{" + ",".join(out) + sp(rng) + "}"

NAMES = ["first", "val", "other", "x", "maxLen"]
def rand_def(rng, name="a:b"):
    r = rng.random()
    if r < .07: return dict(name=name, kind="empty", strict=True, args=[], target=0)
    if r < .35:
        t = ty("raw") if rng.random() < .2 else rand_type(rng, 3)
        return dict(name=name, kind="anon", strict=True, args=[dict(name="", type=t, opt=False)], target=0)
    args = [dict(name=n, type=rand_type(rng), opt=rng.random() < .4) for n in rng.sample(NAMES, rng.randint(1, 4))]
    return dict(name=name, kind="struct", strict=rng.random() < .9, args=args, target=0)
def zero(t):
    return "nil" if t["ptr"] or t["k"] == "any" else {"int": "i0", "i32": "i0", "num": "n0", "str": "s0:", "raw": "s0:", "bool": "bF", "slice": "[]", "map": "{}"}[t["k"]]

def well_formed(rng, d):
    """(text, want) or None: a marker for the definition."""
    if d["kind"] == "empty": return d["name"], []
    vals = []
    for a in d["args"]:
        skip = d["kind"] == "struct" and (a["opt"] or a["type"]["ptr"] or not d["strict"]) and rng.random() < .4
        vals.append(None if skip else rand_val(rng, a["type"]))
    want = [zero(a["type"]) if v is None else ("&" if a["type"]["ptr"] else "") + canon(v) for a, v in zip(d["args"], vals)]
    ts = [None if v is None else render(rng, v, a["type"]) for a, v in zip(d["args"], vals)]
    if any(t is None and v is not None for t, v in zip(ts, vals)): return None
    if d["kind"] == "anon":
        if ts[0] == "": return None
        return d["name"] + "=" + ts[0], want
    idx = [i for i, t in enumerate(ts) if t is not None]
    rng.shuffle(idx)
    if not idx: return d["name"], want
    # a space before the comma is only insignificant after a bare value, so none is written there
    return d["name"] + ":" + ",".join((d["args"][i]["name"] + "=" if n == 0 or rng.random() < .7 else sp(rng) + d["args"][i]["name"] + sp(rng) + "=") + ts[i] for n, i in enumerate(idx)), want

def mutate(rng, text, d):
    """Some small damage."""
    op = rng.choice(["del", "del", "ins", "ins", "rep", "trunc", "tail", "dup", "extra", "rename", "drop", "swap", "big", "noarg"])
    q = text.find("=") + 1 or len(text)
    p = rng.randint(q if rng.random() < .8 else min(len(d["name"]) + 1, len(text)), len(text))
    ch = rng.choice(list("{},;:=\"`-5. ax"))
    if op == "del" and p < len(text): return text[:p] + text[p + 1:]
    if op == "ins": return text[:p] + ch + text[p:]
    if op == "rep" and p < len(text): return text[:p] + ch + text[p + 1:]
    if op == "trunc" and p < len(text) and p > q: return text[:p]
    if op == "tail": return text + rng.choice([",", ";", "}", " x", ",x", ",zz=1", "\"", ":", "=", ",=", "{", ",first=1 2"])
    if op == "dup" and "," in text:
        parts = text.split(",")
        return ",".join(parts + [parts[-1]])
    if op == "extra": return text + (",unknown=1" if "=" in text else ":unknown=1")
    if op == "rename" and d["kind"] == "struct" and d["args"]:
        n = rng.choice(d["args"])["name"]; return text.replace(n + "=", n + rng.choice(["x=", "_="]), 1)
    if op == "drop" and "," in text:
        parts = text.split(","); parts.pop(rng.randrange(len(parts))); return ",".join(parts)
    if op == "swap" and "=" in text:
        return text[:text.rfind("=") + 1] + rng.choice(["abc", "true", "1.5", "-3", "{a}", "{a: b}", "{1,b}", "\"s\"", "1;a", "- 5", "--5", "{", "}", "tru", "TRUE", "nope;1"])
    if op == "big" and "=" in text: return text[:text.rfind("=") + 1] + rng.choice(BIG + ["99999999999999999999", "-9223372036854775809"])
    if op == "noarg": return d["name"] + rng.choice(["", "=", ":", ":x", "=1", ":=1"])
    return text + "z"

def ascii_ok(t): return all(32 <= ord(c) < 127 for c in t) and "\n" not in t

def generate(ctx, prop):
    rng = ctx.rng
    cases, wants = [], []
    def add(defs, text, want):
        cases.append(dict(id=str(len(cases)), defs=defs, text=text)); wants.append(want)
    n = (30000 if ctx.thorough else 5000)
    while len(cases) < n:
        d = rand_def(rng, rng.choice(["a:b", "m", "x:y:z"]))
        w = well_formed(rng, d)
        if w is None: continue
        text, want = w
        text, orig = text.rstrip(), text       # as the collector trims it
        if text != orig and d["kind"] == "anon" and d["args"][0]["type"]["k"] == "raw": want = ["s%d:%s" % (len(text) - len(d["name"]) - 1, text[len(d["name"]) + 1:])]
        if not ascii_ok(text) or text.endswith("="): continue
        if d["name"] == "m" and d["kind"] == "struct" and ":" not in text.split("=")[0] and "=" in text: continue
        defs = [d]
        if rng.random() < .25:      # other definitions whose names are close
            for nm in rng.sample([d["name"] + ":val", d["name"] + ":q", d["name"][:-1], d["name"] + "x"], 2):
                if nm: defs.append(rand_def(rng, nm))
            longer = [e for e in defs[1:] if text.split("=")[0] == e["name"]]
            if longer: want = []
        if prop == "M01" and rng.random() < .85: add(defs, text, want if want else [])
        else:
            for _ in range(rng.choice([1, 1, 2])): text = mutate(rng, text, d)
            if len(text) > 200: continue
            add(defs, text.rstrip(), [])
    return cases, wants

def from_model(ctx):
    """The cases of the exhaustive model (MarkerRound), anonymous and as one of two arguments."""
    out = ctx.path("rows.ndjson")
    tlc(ctx, "MarkerGen", env=dict(OUT=out), count=False)
    cases, wants = [], []
    rows = read_nd(out)
    if not ctx.thorough: rows = ctx.rng.sample(rows, 1500)
    for i, r in enumerate(rows):
        t = r["typ"]; two = [dict(name="first", type=ty("str"), opt=True), dict(name="val", type=t, opt=False)]
        if r["txt"] != r["txt"].rstrip(): continue
        if i % 3 == 0: d, text, want = dict(name="m:n", kind="anon", strict=True, target=0, args=[dict(name="", type=t, opt=False)]), "m:n=" + r["txt"], [r["val"]]
        elif i % 3 == 1: d, text, want = dict(name="m:n", kind="struct", strict=True, target=0, args=two), "m:n:val=" + r["txt"] + ",first=z", ["s1:z", r["val"]]
        else: d, text, want = dict(name="m:n", kind="struct", strict=True, target=0, args=two), "m:n:first=\"q,r\",val=" + r["txt"], ["s3:q,r", r["val"]]
        cases.append(dict(id="m%d" % i, defs=[d], text=text)); wants.append(want)
    return cases, wants

def run_parse(ctx, prop):
    if ctx.replay: cases, wants = [ctx.replay["case"]["input"]], [[]]
    else:
        cases, wants = generate(ctx, prop)
        if prop == "M01":
            c2, w2 = from_model(ctx); cases += c2; wants += w2
    exe = build_driver(ctx, "markers")
    obs = run_sharded(ctx, exe, cases)
    recs = []
    for c, w in zip(cases, wants):
        o = obs[c["id"]]
        recs.append(dict(defs=c["defs"], text=c["text"], want=w or [], ok=o["err"] == "" and o["panic"] == "", vals=o["vals"] if o["err"] == "" else [], **{"def": o["def"]}))
        if o["panic"]: ctx.violation("panic on %r: %s" % (c["text"], o["panic"]), dict(input=c))
    unspec = 0
    for i, why in judge(ctx, "MarkerConf", recs, env=dict(PROP=prop)):
        if "SPECIFICATION" in why: raise CheckError("specification and generator disagree on %s" % json.dumps(recs[i]))
        if "UNSPECIFIED" in why: unspec += 1; continue
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:700]), dict(input=cases[i], observed=recs[i]))
    ctx.count("texts_outside_specified_language", unspec)
    ctx.count("texts_refused_by_code", sum(1 for r in recs if not r["ok"]))
    ctx.count("texts_accepted_by_code", sum(1 for r in recs if r["ok"]))
    for r in recs[:2] + recs[-1:]: ctx.sample(r)
    if not ctx.violations and not ctx.replay:
        bad = []
        for r, w in zip(recs, wants):
            if prop == "M01" and r["ok"] and w and r["vals"]:
                b = json.loads(json.dumps(r)); b["vals"][-1] += "x"; bad.append(b)
            if prop == "M02" and not r["ok"] and r["text"].endswith((",unknown=1", ":unknown=1")) and r["defs"][0]["kind"] == "struct" and r["def"] == r["defs"][0]["name"]:
                b = json.loads(json.dumps(r)); b["ok"] = True; bad.append(b)
            if len(bad) >= 20: break
        # an argument nothing knows; skip those the text of which is outside the specified language
        left = [b for b in bad]
        res = {i for i, why in judge(ctx, "MarkerConf", left, env=dict(PROP=prop), count_traces=False)}
        if len(res) < len(left) * .8 or not left: raise CheckError("self-test: corrupted observations accepted (%d of %d rejected)" % (len(res), len(left)))
        ctx.count("corrupted_observations_rejected", len(res))

def M01(ctx):
    model_check(ctx, "MarkerRound")
    run_parse(ctx, "M01")
