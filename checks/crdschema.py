"""C03, C04, C05: schemas of Go types (pkg/crd/schema.go, pkg/crd/markers)."""
import json, os, random, re
from vlib import *
from schemas import proj2, canon, num

def b(n): return dict(k="b", n=n, e=[])
def l(n): return dict(k="l", n=n, e=[])
def s(n): return dict(k="s", n=n, e=[])
def w(k, *e): return dict(k=k, n="", e=list(e))
def bad(text): return dict(k="bad", n=text, e=[])
STRUCT = dict(k="struct", n="struct { X string `json:\"x\"` }", e=[])
# What types refer to: name, alias, type.
PRELUDE = [("PStr", 0, b("string")), ("PInt", 0, b("int32")), ("PSlice", 0, w("slice", b("string"))), ("PStruct", 0, STRUCT), ("PStruct2", 0, STRUCT), ("PMap", 0, w("map", b("string"), b("string"))),
    ("PIface", 0, bad("interface{}")), ("PText", 0, STRUCT), ("PJson", 0, STRUCT), ("PFloat", 0, b("float64")), ("PPtr", 0, w("ptr", b("string"))), ("PNamed", 0, l("PStr")), ("PByte", 0, b("byte")),
    ("AStr", 1, b("string")), ("AInt", 1, b("int64")), ("AByte", 1, b("byte")), ("AFloat", 1, b("float32")), ("AErr", 1, b("error")), ("ANamed", 1, l("PStr")), ("AStruct", 1, l("PStruct")), ("ALit", 1, w("slice", b("string"))),
    ("AMap", 1, w("map", b("string"), b("int"))), ("ASel", 1, s("q.QStr")), ("AAStr", 1, l("AStr")), ("AALit", 1, l("ALit")), ("AQAlias", 1, s("q.QAlias")),
    ("DStr", 0, b("string")), ("DStruct", 0, STRUCT), ("DAlias", 1, b("string")),
    ("q.QStr", 0, b("string")), ("q.QStruct", 0, STRUCT), ("q.QSlice", 0, w("slice", b("int"))), ("q.QAlias", 1, l("q.QStr")), ("q.QABasic", 1, b("string")), ("q.QALit", 1, w("slice", b("string"))), ("q.QIface", 0, bad("interface{ M() }")),
    ("q.QAInt", 1, b("int32")), ("q.QAByte", 1, b("uint8"))]
DECLS = {n: (a, t) for n, a, t in PRELUDE}
LOCAL = [n for n in DECLS if "." not in n]; SEL = [n for n in DECLS if "." in n]
BASIC = ["bool", "string", "string", "int", "int8", "int16", "int32", "int64", "rune", "uint", "uint8", "byte", "uint16", "uint32", "uint64", "uintptr"]
ODD = ["float32", "float64", "complex64", "complex128", "error", "any"]
BAD = ["func()", "chan int", "interface{}", "interface{ M() }", "struct{ A string `json:\"a\"` }", "G[int]", "(string)", "<-chan string"]
def text(t, pkg=""):
    k, n, e = t["k"], t["n"], t["e"]
    if k in ("l", "s") and pkg and n.startswith(pkg + "."): return n[len(pkg) + 1:]
    if k in ("b", "l", "s", "bad", "struct"): return n
    if k == "map": return "map[%s]%s" % (text(e[0], pkg), text(e[1], pkg))
    return {"slice": "[]", "arr": "[3]", "ptr": "*"}[k] + text(e[0], pkg)
METHOD = "func (%s%s) Marshal%s() ([]byte, error) { return nil, nil }\n"
def prelude():
    f = {"": "package p\nimport \"@MOD@/q\"\ntype G[T any] struct { X T `json:\"x\"` }\n" + METHOD % ("", "PText", "Text") + METHOD % ("*", "PJson", "JSON"), "q": "package q\n", "d": "package d\n"}
    for n, a, t in PRELUDE:
        pkg = "q" if n[0] == "q" else "d" if n[0] == "D" else ""
        f[pkg] += ("// +kubebuilder:validation:Type=string\n" if n == "PJson" else "") + "type %s %s%s\n" % (n.split(".")[-1], "= " if a else "", text(t, "q" if pkg == "q" else ""))
    return {"p.go": f[""], "q/q.go": f["q"], "d/d.go": f["d"]}

# ---- markers: name, what it is called, arguments (text, value, flag)
def ints(*v): return [("=%d" % x, str(x), "") for x in v]
NUMS = ints(0, 5, -3, 100, 3000000000, -9007199254740991) + [("=1000000.5", "1000000.5", "fraction"), ("=1.5", "1.5", "fraction"), ("=-2.25", "-2.25", "fraction"), ("=4.0", "4", "")]
BOOL = [("=true", "true", ""), ("=true", "true", ""), ("=false", "false", "")]
STRS = [('="^a$"', canon("^a$"), ""), ("=`\\d+`", canon("\\d+"), ""), ('=""', '""', ""), ('=" ^a b "', canon(" ^a b "), ""), ('="<\\"é&>"', canon('<"é&>'), "")]
ON = [("", "true", "")]
V = "kubebuilder:validation:"
def rule(text, flag="", **kw): return (":" + text, canon(kw), flag)
ANYS = [("=5", "5", ""), ("=abc", canon("abc"), ""), ('="x y"', canon("x y"), ""), ("={}", "{}", ""), ("={1,2}", "[1,2]", ""), ("={a: 1, b: \"z\"}", canon({"a": 1, "b": "z"}), ""), ("=true", "true", ""), ('="<a&b>\\té"', canon("<a&b>\té"), ""), ("=3000000001", "3000000001", ""), ("={{1,2},{3}}", "[[1,2],[3]]", ""), ("={a: {b: {1}}}", canon({"a": {"b": [1]}}), ""), ('=""', '""', ""), ("=-1", "-1", "")]
MARKS = [("Maximum", V + "Maximum", NUMS), ("Minimum", V + "Minimum", NUMS), ("ExclusiveMaximum", V + "ExclusiveMaximum", BOOL), ("ExclusiveMinimum", V + "ExclusiveMinimum", BOOL), ("MultipleOf", V + "MultipleOf", NUMS),
    ("MinProperties", V + "MinProperties", ints(0, 2)), ("MaxProperties", V + "MaxProperties", ints(1, 7)), ("MaxLength", V + "MaxLength", ints(0, 9, 3000000000)), ("MinLength", V + "MinLength", ints(1, 2)), ("Pattern", V + "Pattern", STRS),
    ("MaxItems", V + "MaxItems", ints(3, 9)), ("MinItems", V + "MinItems", ints(0, 1)), ("UniqueItems", V + "UniqueItems", BOOL), ("Enum", V + "Enum", [("=a;b", canon(["a", "b"]), ""), ('={"x y","z"}', canon(["x y", "z"]), ""), ("=1;2;3", "[1,2,3]", ""), ('={"<&>","a\\\\b","é\\x07"}', canon(["<&>", "a\\b", "é\x07"]), ""), ('={a,1,true}', canon(["a", 1, True]), ""), ('=""', canon([""]), ""), ("=b;a;b", canon(["b", "a", "b"]), "")]),
    ("Format", V + "Format", [("=date-time", canon("date-time"), ""), ("=int64", canon("int64"), ""), ('=""', '""', "")]),
    ("Type", V + "Type", [("=" + t, canon(t), "") for t in ("string", "integer", "array", "object", "number")]),
    ("PreserveUnknownFields", V + "XPreserveUnknownFields", ON), ("EmbeddedResource", V + "XEmbeddedResource", ON), ("IntOrString", V + "XIntOrString", ON),
    ("XValidation", V + "XValidation", [rule('rule="self > 0"', rule="self > 0"), rule('rule="a",message="no"', rule="a", message="no"), rule('rule="b",messageExpression="e",reason="FieldValueInvalid",fieldPath=".x"', rule="b", messageExpression="e", reason="FieldValueInvalid", fieldPath=".x"),
        rule('rule="c",reason="FieldValueForbidden",optionalOldSelf=true', rule="c", reason="FieldValueForbidden", optionalOldSelf=True), rule('rule="e <&> f",message="a: \\"b\\"",fieldPath="x"', rule='e <&> f', message='a: "b"', fieldPath="x"), rule('rule="g",reason="FieldValueRequired"', rule="g", reason="FieldValueRequired"), rule('rule="h",reason=FieldValueDuplicate', rule="h", reason="FieldValueDuplicate"), rule('rule="c",optionalOldSelf=false', rule="c", optionalOldSelf=False),
        rule('rule="d",reason="Nonsense"', "unknown value", rule="d")])]
ITEMS = [m for m in MARKS]
MARKS += [("PreserveUnknownFields", "kubebuilder:pruning:PreserveUnknownFields", ON), ("ListType", "listType", [("=map", '"map"', ""), ("=map", '"map"', ""), ("=set", '"set"', ""), ("=atomic", '"atomic"', ""), ("=bag", '"bag"', "unknown value")]),
    ("ListMapKey", "listMapKey", [("=" + k, k, "") for k in ("a", "b", "c")]), ("MapType", "mapType", [("=atomic", '"atomic"', ""), ("=granular", '"granular"', ""), ("=x", '"x"', "unknown value")]),
    ("StructType", "structType", [("=atomic", '"atomic"', ""), ("=granular", '"granular"', ""), ("=set", '"set"', "unknown value")])]
FIELD = [("Nullable", "nullable", ON), ("Default", "kubebuilder:default", ANYS), ("KubeDefault", "default", [("=5", "5", ""), ('="s"', '"s"', ""), ("={}", "{}", ""), ('={"a":[1.0,2.5]}', '{"a":[1,2.5]}', ""), ("=9007199254740993", "9007199254740993", ""), ('="ref(A)"', '"ref(A)"', ""), ('={"k":"<&>"}', canon({"k": "<&>"}), ""), ("=null", "", "nothing"), ("= ref(A)", "", "nothing"), ("=ref(A)", "", "nothing")]),
    ("Example", "kubebuilder:example", ANYS), ("Title", "kubebuilder:title", [("=Name", '"Name"', ""), ('="a b"', '"a b"', ""), ("=5", "", "unknown value")]), ("EmbeddedResource", V + "EmbeddedResource", ON)]
LIKELY = {"string": ["MaxLength", "MinLength", "Pattern", "Format", "Enum"], "num": ["Maximum", "Minimum", "ExclusiveMaximum", "ExclusiveMinimum", "MultipleOf"], "array": ["MaxItems", "MinItems", "UniqueItems", "ListType", "ListType", "ListMapKey", "ListMapKey"],
          "object": ["MinProperties", "MaxProperties", "MapType", "StructType"], "": ["Type", "IntOrString", "XValidation", "XValidation"]}
def sort_of(t):
    if t["k"] == "ptr": return sort_of(t["e"][0])
    if t["k"] == "l" and DECLS[t["n"]] == (1, b("string")): return "string"
    if t["k"] == "b": return "string" if t["n"] == "string" else "num"
    return {"slice": "array", "arr": "array", "map": "object", "struct": "object"}.get(t["k"], "")
def marks(rng, t, field, n):
    res = []
    for _ in range(n):
        table = MARKS + (FIELD if field else [])
        items = sort_of(t) == "array" and rng.random() < .35 or rng.random() < .04
        like = LIKELY.get(sort_of(t["e"][0] if items and t["e"] else t), []) + (LIKELY[""] if rng.random() < .4 else [])
        if items: table = ITEMS
        pool = [m for m in table if m[0] in like] if like and rng.random() < .75 else table
        if not pool: continue
        m, name, args = rng.choice(pool)
        a, v, flag = rng.choice(args)
        if items: name = V + "items:" + name[len(V):]
        res.append(dict(m=m, items=bool(items), v=v, flag=flag, text="// +" + name + a))
    if n and rng.random() < .04:           # so many that how they are sorted matters
        mostly = rng.choice([.3, 1])
        for i in range(rng.randint(13, 30)):
            it = sort_of(t) == "array" and rng.random() < mostly
            res.insert(rng.randint(0, len(res)), dict(m="XValidation", items=it, v=canon({"rule": "q%d" % i}), flag="", text="// +" + V + ("items:" if it else "") + "XValidation:rule=\"q%d\"" % i))
    if res and rng.random() < .2:        # twice the same
        a = rng.choice(res)
        if a["m"] in ("XValidation", "ListMapKey"): res.append(dict(a))
    return res

def expr(rng, d, wild):
    r = rng.random()
    if d == 0 or r < .35:
        r = rng.random()
        if r < wild * .5: return b(rng.choice(ODD))
        if r < wild: return bad(rng.choice(BAD))
        if r < .55: return b(rng.choice(BASIC))
        n = rng.choice(LOCAL if r < .85 else SEL)
        if n in ("PIface", "q.QIface", "PFloat", "AFloat", "AErr") and rng.random() > wild * 4: n = "PStr"
        return (s if "." in n else l)(n)
    if r < .5: return w("ptr", expr(rng, d - 1, wild))
    if r < .7:
        e = expr(rng, d - 1, wild)
        return w("slice", e)
    if r < .78: return w("arr", expr(rng, d - 1, wild))
    key = b("string") if rng.random() < .6 else l(rng.choice(["PStr", "AStr", "PNamed", "ANamed", "AAStr", "DStr", "ASel", "AQAlias"])) if rng.random() < .6 else s(rng.choice(["q.QStr", "q.QABasic"])) if rng.random() < .5 else expr(rng, 0, wild)
    if key["k"] == "bad" and key["n"] == "(string)": key = b("int")
    v = expr(rng, d - 1, wild)
    return w("map", key, v)

TAGS = ["a", "b", "c", "kind", "x-y", "some.name", "-", "_", "A"]
EMBED = ["PStruct", "PStruct2", "AStruct", "DStruct", "q.QStruct"]
def struct(rng, prop, d):
    n = rng.choice([0, 1, 2, 3, 4, 5]) if prop != "C03" else rng.randint(1, 7)
    tags = rng.sample(TAGS, len(TAGS)); emb = rng.sample(EMBED, len(EMBED)); marsh = set()
    ptxt = .05 if prop == "C04" else .01
    for i in range(n):
        f = dict(emb=False, exported=True, hasTag=True, tag=tags.pop(), dashComma=False, inline=False, omit=rng.random() < .4, req=[], less=False, marks=[], doc="", ftype="", quote=False)
        f["type"] = b("string") if prop == "C03" and rng.random() < .7 else expr(rng, {"C03": 1, "C04": 3, "C05": 2}[prop], .12 if prop == "C04" else 0)
        odd = rng.random() < (.6 if prop == "C03" else .15)
        if odd:
            r = rng.random()
            if r < .35 and emb:
                t = emb.pop() if rng.random() > ptxt * 4 else rng.choice(["PText", "PJson"])
                if t in ("PText", "PJson"):
                    if t in marsh: continue
                    marsh.add(t)
                f["emb"] = True; f["type"] = (s if "." in t else l)(t)
                if rng.random() < .3: f["type"] = w("ptr", f["type"])
                if rng.random() < .75: tags.append(f["tag"]); f["tag"] = ""; f["inline"] = rng.random() < .7
                if t == "AStruct" and "PStruct" in emb: pass
            elif r < .5: f["exported"] = False
            elif r < .6 and prop != "C05": f["hasTag"] = False
            elif r < .7: f["tag"] = "-"; f["omit"] = False
            elif r < .78: tags.append(f["tag"]); f["tag"] = ""; f["named"] = True
        if f["tag"] == "-" and rng.random() < .5 and not any(x["tag"] == "-" and x["dashComma"] for x in d["fields"]): f["dashComma"] = True
        if f["tag"] == "-" and not f["dashComma"]: f["omit"] = False
        if rng.random() < (.6 if prop == "C03" else .1):
            f["req"] = rng.sample(["kb-optional", "kb-required", "optional", "required"], rng.choice([1, 1, 1, 2, 3]))
        if rng.random() < .06 and prop != "C04": f["less"] = True
        if prop == "C05" and not (f["emb"] and f["tag"] == ""): f["marks"] = marks(rng, f["type"], True, rng.choice([0, 1, 1, 2, 3, 4]))
        elif prop == "C05" and rng.random() < .3: f["marks"] = marks(rng, f["type"], True, 1)
        if rng.random() < .4: f["doc"] = "Doc %d." % i
        d["fields"].append(f)
    d["marsh"] = "json" if "PJson" in marsh or d["marsh"] == "json" else "text" if "PText" in marsh or d["marsh"] == "text" else ""

def options(rng, f, prop):
    """The options of a tag, in any order and among others that say nothing about being required."""
    o = ["inline"] * f["inline"] + rng.choice([["omitempty"], ["omitempty"], ["omitzero"], ["omitempty", "omitzero"]]) * f["omit"]
    if not f["dashComma"] and not (f["tag"] == "-") and rng.random() < (.35 if prop == "C03" else .05): o += rng.sample(["other", "inlined", "omit", "strings"], rng.choice([1, 1, 2]))
    if not (f["tag"] == "-" and not f["dashComma"]) and rng.random() < (.12 if prop == "C04" else .04) and f["type"]["n"] != "(string)": o += ["string"]; f["quote"] = True
    rng.shuffle(o)
    return "".join("," + x for x in o)
REQ = {"kb-optional": V + "Optional", "kb-required": V + "Required", "optional": "optional", "required": "required"}
def decl(rng, prop, i):
    d = dict(name="T%d" % i, struct=False, type=b("string"), fields=[], marsh="", marks=[], doc="Type %d." % i if rng.random() < .5 else "")
    d["struct"] = prop == "C03" or rng.random() < (.5 if prop == "C04" else .6)
    own = rng.choice(["json", "text"]) if rng.random() < {"C03": 0, "C04": .12, "C05": .08}[prop] else ""
    d["marsh"] = own
    if d["struct"]: struct(rng, prop, d); body = None
    else:
        d["type"] = expr(rng, 3 if prop == "C04" else 2, .12 if prop == "C04" else 0)
        if d["type"]["k"] == "bad" and d["type"]["n"].startswith("struct"): d["type"] = b("int")
        if own and (d["type"]["k"] in ("ptr", "bad") or d["type"]["k"] == "b" and d["type"]["n"] in ("error", "any") or d["type"]["k"] in ("l", "s")): d["type"] = b("string")
    t = dict(k="struct", n="", e=[]) if d["struct"] else d["type"]
    if prop == "C05": d["marks"] = marks(rng, t, False, rng.choice([0, 0, 1, 1, 2, 3, 4]))
    if d["marsh"] and prop != "C03" and rng.random() < .5: d["marks"].append(dict(m="Type", items=False, v='"string"', flag="", text="// +" + V + "Type=string"))
    if d["marsh"] == "text": d["marks"] = [m for m in d["marks"] if m["m"] != "Type" or m["v"] == '"string"' or rng.random() < .3]
    src = "".join("// %s\n" % d["doc"] if d["doc"] else "") + "".join(m["text"] + "\n" for m in d["marks"])
    alias = not d["struct"] and not own and d["type"]["k"] not in ("l", "s", "ptr") and rng.random() < .15
    src += "type %s %s" % (d["name"], "= " if alias else "")
    if d["struct"]:
        src += "struct {\n"
        for n, f in enumerate(d["fields"]):
            lines = [("// +" + REQ[r], None) for r in f["req"]] + [(m["text"], m) for m in f["marks"]] + ([("// +" + V + "Schemaless", None)] if f["less"] else [])
            if rng.random() < .4: rng.shuffle(lines)
            f["marks"] = [m for _, m in lines if m]
            if f["doc"]: src += "\t// " + f["doc"] + "\n"
            src += "".join("\t" + x + "\n" for x, _ in lines)
            tag = f["tag"] + options(rng, f, prop) + ("," if f["dashComma"] and not f["omit"] and not f["quote"] else "")
            goname = ("F%d" if f["exported"] else "f%d") % n
            src += "\t%s%s%s\n" % ("" if f["emb"] else goname + " ", text(f["type"]), " `json:%s`" % json.dumps(tag) if f["hasTag"] else rng.choice(["", " `yaml:\"y\"`"]))
            if f.pop("named", False): f["tag"] = goname
        src += "}\n"
    else: src += text(d["type"]) + "\n"
    if own: src += METHOD % (rng.choice(["", "*"]), d["name"], dict(json="JSON", text="Text")[own])
    return d, src

def mk(rng, prop):
    n = 10
    ds, src = [], "package p\nimport (\n\"@MOD@/q\"\n. \"@MOD@/d\"\n)\nvar _ q.QStr\nvar _ DStr\n"
    for i in range(n):
        d, t = decl(rng, prop, i)
        ds.append(d); src += t
    files = dict(prelude(), **{"t.go": src})
    optional = rng.random() < (.4 if prop == "C03" else .1)
    if optional: files["doc.go"] = "// +kubebuilder:validation:Optional\npackage p\n"
    ignore = rng.random() < .3
    if ignore: files["t.go"] = re.sub(r"(?m)^\tF(\d+) ", lambda m: "\tf%sx, F%s " % (m[1], m[1]) if rng.random() < .2 else m[0], src)   # declared together
    return dict(mode="types", files=files, orders=[], types=ds, only=[".T%d" % i for i in range(n)], optional=optional,
                opts=dict(ignoreUnexported=ignore, dangerous=rng.random() < .3, embeddedMeta=False))

def ref(r):
    m = re.match(r"#/definitions/(?:m\.test~1c\d+~1([qd])~0)?(\w+)$", r)
    if not m: return r
    return ("q." if m[1] == "q" else "") + m[2]
def records(c, o):
    for d in c["types"]:
        k = "." + d["name"]; pn = o.get("panics") or {}
        if o.get("errs"): raise RuntimeError("errors before any type was asked for: %s" % o["errs"])
        yield dict(d={x: d[x] for x in d if x != "ftype"}, ignore=c["opts"]["ignoreUnexported"], optional=c["optional"], floats=c["opts"]["dangerous"], got=proj2(o["raw"].get(k) or {}, ref), errs=len(o["rawErrs"].get(k) or []), panic=pn.get(k, ""))

def run(ctx, prop):
    if not ctx.replay: model_check(ctx, "MarkerApply", "MarkerApplyWide" if ctx.thorough else None) if prop == "C05" else None
    rng = ctx.rng
    cases = [ctx.replay["case"]] if ctx.replay else [mk(rng, prop) for _ in range(3000 if ctx.thorough else 800)]
    for i, c in enumerate(cases): c["id"] = str(i)
    pre = os.path.join(ctx.tmp, "prelude.json")
    with open(pre, "w") as f:
        for n, a, t in PRELUDE: f.write(json.dumps(dict(name=n, alias=bool(a), type=t)) + "\n")
    obs = run_sharded(ctx, build_driver(ctx, "crd"), cases)
    recs, at = [], []
    for c in cases:
        for r in records(c, obs[c["id"]]): recs.append(r); at.append(c)
    ctx.count("declarations", len(recs)); ctx.count("declarations_refused", sum(r["errs"] > 0 for r in recs))
    for i, why in judge(ctx, "GoSchemaConf", recs, env=dict(PRELUDE=pre), chunk=8000):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:1500]), dict(at[i], types=[d for d in at[i]["types"] if d["name"] == recs[i]["d"]["name"]]))
    if not ctx.violations and not ctx.replay:
        badr = []
        for r in recs:
            if len(badr) >= 9: break
            if r["errs"]: continue
            c = json.loads(json.dumps(r)); g = c["got"]
            if prop == "C03" and (g["req"] or g["subs"]): g["req"] = g["req"][1:] if g["req"] else [g["subs"][0][0][2:]]
            elif prop == "C04" and g["c"]: g["c"][0][1] += "0"
            elif prop == "C05" and g["c"] and (g["rules"] or g["keys"]): g["rules" if g["rules"] else "keys"].append("{}")
            else: continue
            badr.append(c)
        demand_rejected(ctx, "GoSchemaConf", badr, "required lists, types and markers changed", env=dict(PRELUDE=pre))
    for r in recs[:3]: ctx.sample(r)

def C03(ctx): run(ctx, "C03")
def C04(ctx): run(ctx, "C04")
def C05(ctx): run(ctx, "C05")
