"""Projection of JSON schemas (as the code prints them) to the form of spec/Schema.tla."""
import json
def plain(v):
    """1.0 is 1"""
    if isinstance(v, float) and v == int(v) and abs(v) < 2**53: return int(v)
    return [plain(x) for x in v] if isinstance(v, list) else {k: plain(x) for k, x in v.items()} if isinstance(v, dict) else v
def canon(v): return json.dumps(plain(v), sort_keys=True, ensure_ascii=True, separators=(",", ":"))
def num(v): return canon(int(v) if isinstance(v, float) and v == int(v) and abs(v) < 2**53 else v)
EMPTY = dict(c=[], req=[], rules=[], subs=[], br=[], all=[], ref="", desc=["", "", "", ""])
DOCS = ("title", "example", "externalDocs")
def proj2(s, ref):
    """Like proj, with exclusive bounds and the keys of list maps by themselves, and without branches."""
    o = proj({k: v for k, v in s.items() if k not in ("properties", "items", "additionalProperties", "allOf", "maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum", "x-kubernetes-list-map-keys")}, ref)
    for k in ("maximum", "minimum"):
        if k in s: o["c"].append([k, num(s[k])])
        if s.get("exclusive" + k.capitalize()): o["c"].append(["exclusive" + k.capitalize(), "true"])
    o["desc"] = s.get("description", "")
    o["c"] += [[k, canon(s[k])] for k in DOCS if k in s]
    o["keys"] = s.get("x-kubernetes-list-map-keys", [])
    o["subs"] = [["p:" + n, proj2(v, ref)] for n, v in sorted(s.get("properties", {}).items())]
    for k in ("items", "additionalProperties"):
        if isinstance(s.get(k), dict): o["subs"].append([k[0], proj2(s[k], ref)])
        elif k in s: o["c"].append([k, canon(s[k])])
    o["all"] = [proj2(x, ref) for x in s.get("allOf", [])]
    return o
def proj(s, ref=lambda r: r):
    """ref maps the text of a reference to the name of the type."""
    o = dict(c=[], req=list(s.get("required", [])), rules=[canon(r) for r in s.get("x-kubernetes-validations", [])], subs=[], br=[], all=[],
             ref=ref(s["$ref"]) if s.get("$ref") else "", desc=[s.get("description", "")] + [canon(s[k]) if k in s else "" for k in DOCS])
    for b in ("maximum", "minimum"):
        x = "exclusive" + b.capitalize()
        if b in s: o["c"].append([b, num(s[b]) + (" exclusive" if s.get(x) else "")])
        elif s.get(x): o["c"].append([x, "true"])
    for k in sorted(s):
        v = s[k]
        if k in ("required", "x-kubernetes-validations", "$ref", "description", "maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum") + DOCS: continue
        if k == "properties": o["subs"] += [["p:" + n, proj(v[n], ref)] for n in sorted(v)]
        elif k == "items" and isinstance(v, dict): o["subs"].append(["i", proj(v, ref)])
        elif k == "additionalProperties": o["subs"].append(["a", proj(v, ref) if isinstance(v, dict) else dict(EMPTY, c=[] if v else [["nothing", ""]])])
        elif k == "allOf": o["all"] = [proj(x, ref) for x in v]
        elif k in ("anyOf", "oneOf"): o["br"].append([k, [proj(x, ref) for x in v]])
        elif k == "not": o["br"].append([k, [proj(v, ref)]])
        else: o["c"].append([k, num(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else canon(v)])
    o["subs"].sort(key=lambda x: x[0])
    return o
