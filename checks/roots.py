"""L01: root paths (pkg/loader/loader.go)."""
import json, posixpath
from vlib import *

HIDDEN = ["testdata", "_x", ".h"]
def seg(d): return [s for s in d.split("/") if s]
def tree(rng):
    mods = [("", rng.choice(["m.test", "example.com/app"]))]
    for d in rng.sample(["n1", "a/n2", "b/c/n3", "n1/deep", "a/n2/a/z", "internal", "internal/pkg", "x/internal", "examples", "test"], rng.choice([0, 1, 1, 2, 3, 4])):
        mods.append((d, rng.choice(["n%d.test" % len(mods), "m.test/" + d, "example.com/app", "same.test/x"])))
    names = ["a", "b", "c", "x", "pkg", "api.v1", "internal", "examples", "cmd"]
    pk = set()
    for d, _ in mods:
        for _ in range(rng.choice([1, 2, 3, 4])):
            p = d
            for _ in range(rng.choice([0, 1, 1, 2, 3])): p = posixpath.join(p, rng.choice(names if rng.random() < .85 else HIDDEN))
            pk.add(p)
    mod = lambda p: max((m for m in mods if m[0] == "" or p == m[0] or p.startswith(m[0] + "/")), key=lambda m: len(m[0]))
    # directories on the way to a nested module that are modules' own are fine; packages may be anywhere
    uses, used = [], {mods[0][1]}
    for d, path in mods[1:]:
        if path not in used and rng.random() < .6 and not any(path.startswith(u + "/") or u.startswith(path + "/") for u in used): uses.append(("", d)); used.add(path)
    ipath = lambda p: posixpath.join(mod(p)[1], posixpath.relpath(p or ".", mod(p)[0] or ".")) if p != mod(p)[0] else mod(p)[1]
    def visible(p, q):      # packages below internal can only be imported from beside it
        w = ipath(q).split("/")
        if "internal" not in w: return True
        top = w[:len(w) - 1 - w[::-1].index("internal")]; return ipath(p).split("/")[:len(top)] == top
    order = sorted(pk, key=lambda p: (mod(p)[0] == "", rng.random())); edges = []
    files = {}
    for d, path in mods:
        files[posixpath.join(d, "go.mod")] = "module %s\n\ngo 1.21\n" % path + "".join("\nrequire %s v0.0.0\n\nreplace %s => ./%s\n" % (dict(mods)[u], dict(mods)[u], u) for o, u in uses if o == d)
    for i, p in enumerate(order):
        imps = [q for q in order[:i] if (mod(q)[0] == mod(p)[0] or (mod(p)[0], mod(q)[0]) in uses) and rng.random() < .4 and not any(s in HIDDEN for s in seg(q)) and visible(p, q)]
        edges += [(p, q) for q in imps]
        n = "p%d" % i; parts = [imps, []] if rng.random() < .4 else [imps]
        for k, part in enumerate(parts):
            files[posixpath.join(p, "f%d.go" % k)] = "package %s\n\n" % n + "".join('import _ "%s"\n' % ipath(q) for q in part) + "\ntype T%d string\n" % k
        if rng.random() < .2: files[posixpath.join(p, "README.md")] = "x"
        if rng.random() < .15: files[posixpath.join(p, "f_test.go")] = "package %s\n" % n
        if rng.random() < .15: files[posixpath.join(p, "gen.go")] = "//go:build !ignore_autogenerated\n\npackage %s\n\nfunc broken( {\n" % n
    return dict(mods=mods, pkgs=sorted(pk), uses=uses, edges=edges, files=files, ipath=ipath, mod=mod)

def spell(rng, cwd, d, abs_):
    """a spelling of a directory, as text"""
    if abs_: t = posixpath.join("@ROOT@", d)
    else:
        t = posixpath.relpath(d or ".", cwd or "."); t = t if t.startswith("..") or t == "." else "./" + t
    if rng.random() < .15: t += "/"
    if rng.random() < .15: t = t.rstrip("/") + "/zz/.."
    if rng.random() < .1: t = t.rstrip("/") + "/."
    return t
def case(rng):
    t = tree(rng)
    inmod = lambda d: [p for p in t["pkgs"] if t["mod"](p)[0] == d]
    m = rng.choice(t["mods"] + t["mods"][:1] * 2)
    cwd = rng.choice([m[0]] * 3 + inmod(m[0])); m = t["mod"](cwd)
    nofiles = lambda p: ("f0.go" not in [posixpath.basename(f) for f in t["files"] if posixpath.dirname(f) == p])
    texts, recs = [], []
    filedirs = rng.sample(t["pkgs"], 1) if rng.random() < .15 else []
    # directories on the way, which trees may start from
    ways = sorted({posixpath.dirname(p) for p in t["pkgs"]} | set(t["pkgs"]) | {d for d, _ in t["mods"]})
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        x = rng.random(); ab = rng.random() < .2
        if x < .35 and t["pkgs"]:
            p = rng.choice(t["pkgs"]); s = spell(rng, cwd, p, ab)
        elif x < .75:
            d = rng.choice(ways + [""] * 2); s = spell(rng, cwd, d, ab).rstrip("/") + "/..."
            if s == "./..." and rng.random() < .3: s = "..."
        else:
            ok = [p for p in t["pkgs"] if t["mod"](p)[0] == m[0] or (m[0], t["mod"](p)[0]) in t["uses"]]
            if not ok: continue
            p = rng.choice(ok); s = t["ipath"](p)
            if rng.random() < .35: s = rng.choice([t["mod"](p)[1], s if not any(h in seg(p) for h in HIDDEN) else t["mod"](p)[1]]) + "/..."
        texts.append(s)
    for d in filedirs:
        for f in [f for f in t["files"] if posixpath.dirname(f) == d and posixpath.basename(f) in ("f0.go", "f1.go")]:
            if rng.random() < .7: texts.append(spell(rng, cwd, d, False).rstrip("/") + "/" + posixpath.basename(f))
    if rng.random() < .04 and cwd in t["pkgs"]: texts = []
    for s in texts:
        ss = s.split("/")
        if s.startswith("@ROOT@"): recs.append(dict(kind="abs", segs=ss[1:]))
        elif s[0] == ".": recs.append(dict(kind="file" if s.endswith(".go") else "fs", segs=ss))
        else: recs.append(dict(kind="imp", segs=ss))
    tr = dict(pkgs=[seg(p) for p in t["pkgs"]], modules=[dict(dir=seg(d), path=seg(p)) for d, p in t["mods"]], uses=[[seg(a), seg(b)] for a, b in t["uses"]], hidden=HIDDEN, edges=[[seg(a), seg(b)] for a, b in t["edges"]])
    files = dict(t["files"]); 
    for s in texts:
        if "/zz/.." in s: pass
    return dict(files=files, cwd=cwd, viadir=rng.random() < .5, paths=texts), dict(tree=tr, cwd=seg(cwd), paths=recs), filedirs

def conflict(w, filedirs):
    """a directory both as a package and by its files, or nothing at all: not decided here"""
    return not w["paths"] and w["cwd"] not in w["tree"]["pkgs"]

def L01(ctx):
    rng = ctx.rng; cases, want = [], []
    if ctx.replay: cases, want = [ctx.replay["case"]["input"]], [ctx.replay["case"]["want"]]
    else:
        while len(cases) < (2500 if ctx.thorough else 330):
            c, w, fd = case(rng)
            if conflict(w, fd): continue
            if fd and any(p.endswith(".go") for p in c["paths"]):
                # files of a directory that no other path names
                c["paths"] = [p for p in c["paths"] if p.endswith(".go")]; w["paths"] = [p for p in w["paths"] if p["kind"] == "file"]
            cases.append(dict(c, id=str(len(cases)))); want.append(w)
    exe = build_driver(ctx, "roots")
    obs = run_sharded(ctx, exe, cases, shards=8)
    recs = []
    for c, w in zip(cases, want):
        o = obs[c["id"]]; s = lambda d: [] if d == "." else seg(d)
        if o["panic"]: raise ImplCrash("loading panics: " + o["panic"], [c["id"]])
        recs.append(dict(w, err=o["err"], roots=[s(r["dir"]) for r in o["roots"] if r["id"] != "command-line-arguments"], files=[[s(r["dir"]), r["files"]] for r in o["roots"] if r["id"] == "command-line-arguments"],
                         foreign=o["foreign"], errs=["%s: %s" % (r["dir"], e) for r in o["roots"] for e in r["errs"]], imports=sorted({(tuple(s(a)), tuple(s(b))) for a, b in o["imports"]})))
        ctx.count("roots", len(o["roots"])); ctx.count("imports followed", len(o["imports"]))
    for i, why in judge(ctx, "LoaderConf", recs):
        ctx.violation("%s: %s in %s" % (why, cases[i]["paths"], cases[i]["cwd"] or "."), dict(input=cases[i], want=want[i], observed=obs[cases[i]["id"]]))
    if not ctx.replay:
        bad = []
        for r in [r for r in recs if len(r["roots"]) > 2 and not r["err"]][:6]:
            k = len(bad) % 3
            bad.append(dict(r, roots=r["roots"][1:]) if k == 0 else dict(r, roots=r["roots"] + r["roots"][:1]) if k == 1 else dict(r, roots=r["roots"] + [["zz"]]))
        demand_rejected(ctx, "LoaderConf", bad, "altered roots")
    for c in cases[:3]: ctx.sample(dict(cwd=c["cwd"], paths=c["paths"]))
