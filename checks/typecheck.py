"""L02: concurrent type checking (pkg/loader/refs.go, pkg/loader/loader.go)."""
import json, re
from vlib import *

# ways to refer to package q (named a) that matter under every filter: imports, text declaring RefN
def matter(rng, filt, p, q, mod):
    imp, a = 'import "%s/k%d"' % (mod, q), "k%d" % q
    x = rng.random()
    if x < .2: a = "al%d" % q; imp = 'import %s "%s/k%d"' % (a, mod, q)
    a += "."
    if x > .85: imp = 'import . "%s/k%d"' % (mod, q); a = ""
    n = "Ref%d_%d" % (q, p); q1 = "%d_%d" % (q, p)
    T, S, G = ["%s%s%d" % (a, x, q) for x in "TSG"]
    shapes = ["type NN struct {\n\tA @T@ `json:\"a\"`\n}" .replace("NN", n), "type NN struct {\n\tA *@T@ `json:\"a,omitempty\"`\n\tB string `json:\"b\"`\n}" .replace("NN", n), "type NN struct {\n\tA []@S@ `json:\"a\"`\n}" .replace("NN", n),
              "type NN struct {\n\tA map[@S@]string `json:\"a\"`\n}" .replace("NN", n), "type NN struct {\n\t@T@ `json:\",inline\"`\n}" .replace("NN", n), "type NN []@T@" .replace("NN", n), "type NN map[string]@T@" .replace("NN", n), "type NN = @T@" .replace("NN", n), "type NN @T@" .replace("NN", n),
              "type NN struct {\n\tA struct {\n\t\tB @T@ `json:\"b\"`\n\t} `json:\"a\"`\n}" .replace("NN", n), "type (\n\tOO string\n\tNN *@T@\n)".replace("OO", "O" + q1).replace("NN", n), "type NN [3]@S@" .replace("NN", n), "type NN struct {\n\tA @G@[string] `json:\"a\"`\n}" .replace("NN", n)]
    if filt in ("two", "none"): shapes += ["type NN struct {\n\tA @T@\n}" .replace("NN", n), "type NN func(@T@)" .replace("NN", n), "type NN struct {\n\tF func(x @T@) `json:\"-\"`\n}" .replace("NN", n)]
    if filt == "none": shapes += ["type NN interface {\n\tM(@T@)\n}" .replace("NN", n)]
    return imp, rng.choice(shapes).replace("@T@", T).replace("@S@", S).replace("@G@", G)
def idle(rng, filt, p, q, mod):
    imp, a = 'import "%s/k%d"' % (mod, q), "k%d" % q
    shapes = ["func U@Q@(x @T@) {}", "var V@Q@ = @T@{}", "func U@Q@() {\n\ttype l struct{ X @T@ `json:\"x\"` }\n\tvar _ l\n}", "func (T@P@) M@Q@(x *@T@) @S@ { return \"\" }", "const C@Q@ = len(@S@(\"a\"))", None]
    if filt in ("two", "crd"): shapes += ["type I@Q@ interface {\n\tM(x @T@)\n}", "type I@Q@ struct {\n\tI interface{ M() @T@ } `json:\"i\"`\n}"]
    if filt == "crd": shapes += ["type I@Q@ struct {\n\tA @T@\n}", "type I@Q@ struct {\n\tA []@T@ `yaml:\"a\"`\n\tB string `json:\"b\"`\n}", "type I@Q@ struct {\n\tF func(x @T@) `json:\"f\"`\n}"]
    s = rng.choice(shapes)
    return ('import _ "%s/k%d"' % (mod, q), "") if s is None else (imp, s.replace("@T@", "%s.T%d" % (a, q)).replace("@S@", "%s.S%d" % (a, q)).replace("@Q@", "%d_%d" % (q, p)).replace("@P@", str(p)))

def files(rng, n, refs, imps, filt):
    fs = {}
    for p in range(1, n + 1):
        parts = [[] for _ in range(rng.choice([1, 1, 2, 3]))]
        for q in [q for q in range(1, n + 1) if (p, q) in imps]:
            if (p, q) in refs: parts[rng.randrange(len(parts))].append(matter(rng, filt, p, q, "@MOD@"))
            else: parts[rng.randrange(len(parts))].append(idle(rng, filt, p, q, "@MOD@"))
        for i, part in enumerate(parts):
            t = "package k%d\n\n" % p + ("import \"unsafe\"\n" if i == 0 else "") + "".join(x + "\n" for x, _ in part)
            if i == 0: t += "\nconst zzSize = unsafe.Sizeof(zzMark{})\n\ntype zzMark struct {\n\tV int32 `json:\"v\"`\n}\n\ntype T%d struct {\n\tV string `json:\"v\"`\n}\n\ntype S%d string\n\ntype G%d[X any] struct {\n\tX X `json:\"x\"`\n}\n" % (p, p, p)
            fs["k%d/f%d.go" % (p, i)] = t + "".join("\n%s\n" % s for _, s in part if s)
    return fs

def closure(refs, S):
    S = set(S)
    while True:
        T = S | {q for p, q in refs if p in S}
        if T == S: return S
        S = T

def case(rng, n, refs, imps, calls, mode, filt, sched=()):
    refs, imps = {tuple(x) for x in refs}, {tuple(x) for x in imps}
    return dict(n=n, files=files(rng, n, refs, imps, filt), filter=filt, mode=mode, calls=calls, needs=[sorted(closure(refs, [p])) for p in range(1, n + 1)], sched=[dict(k=k, p=p) for k, p in sched]), dict(n=n, refs=sorted(refs), roots=sorted({p for c in calls for p in c}))

def dag(rng, n):
    d = rng.choice([.15, .3, .6, 1]); perm = list(range(1, n + 1)); rng.shuffle(perm)
    imps = [(perm[i], perm[j]) for i in range(n) for j in range(i) if rng.random() < d]
    return [x for x in imps if rng.random() < rng.choice([.5, .9, 1])], imps

def L02(ctx):
    rng = ctx.rng
    for c in ["run", "three"] + (["deep"] if ctx.thorough else []): model_check(ctx, "TypeCheck", "TypeCheck_" + c, timeout=1500, heap="16g")
    for c in ("nolock", "early", "nowait", "global"):
        if tlc(ctx, "TypeCheck", "TypeCheck_" + c, ok_codes=(0, 11, 12), count=False)[0] == 0: raise CheckError("the wrong way to check called %s is not told apart" % c)
    if ctx.replay: cases, want = [ctx.replay["case"]["input"]] * 20, [ctx.replay["case"]["want"]] * 20; cases = [dict(c, id=str(i)) for i, c in enumerate(cases)]
    else:
        k = 1500 if ctx.thorough else 240
        rc, out = tlc(ctx, "TypeCheckGen", "TypeCheckGen", workers=1, simulate="num=%d" % k, count=False)
        todo = []
        for l in join_prints(out):
            m = re.match(r'^<<"SCHED", (".*")>>$', l)
            if not m: continue
            s = json.loads(json.loads(m.group(1)))
            todo.append(case(rng, 4, s["refs"], s["imps"], [[p] for p in s["calls"]], "gate", rng.choice(["crd", "two", "none"]), s["sched"]))
        if len(todo) < k // 2: raise CheckError("only %d schedules were generated" % len(todo))
        for i in range(800 if ctx.thorough else 120):
            n = rng.choice([2, 3, 5, 8, 12]); refs, imps = dag(rng, n)
            calls = [[rng.randint(1, n) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(rng.choice([1, 2, 3, 6]))]
            todo.append(case(rng, n, refs, imps, calls, "race" if i % 2 else "events", rng.choice(["crd", "two", "none"])))
        cases, want = [dict(c, id=str(i)) for i, (c, _) in enumerate(todo)], [w for _, w in todo]
    exe = build_driver(ctx, "loader", flags=["-race"])
    obs = run_sharded(ctx, exe, cases, shards=6, env=dict(GORACE="halt_on_error=1"))
    recs = []
    for c, w in zip(cases, want):
        o = obs[c["id"]]; ts = [e["p"] for e in o["events"] or [] if e["k"] == "t"]
        recs.append(dict(w, hang=o["hang"], types=ts, seen=c["mode"] != "race" and bool(ts), complete=o["complete"] or [], unresolved=o["unresolved"] or [], errors=o["errors"] or [], returned=[[r["p"], r["done"]] for r in o["returned"] or []]))
        if c["mode"] == "gate": ctx.count("schedules forced"); ctx.count("schedules followed to the end", int(o["followed"]))
    for i, why in judge(ctx, "TypeCheckConf", recs):
        ctx.violation("%s: refs %s calls %s (%s)" % (why, want[i]["refs"], cases[i]["calls"], cases[i]["mode"]), dict(input=cases[i], want=want[i], observed=obs[cases[i]["id"]]))
    if not ctx.replay:
        bad = []
        for r in [r for r in recs if r["seen"] and len(r["types"]) > 2 and r["refs"] and not r["hang"]][:8]:
            k = len(bad) % 4
            if k == 0: bad.append(dict(r, types=r["types"] + r["types"][:1]))
            elif k == 1: bad.append(dict(r, complete=r["complete"][1:]))
            elif k == 2: bad.append(dict(r, returned=[[p, d[1:]] for p, d in r["returned"]]))
            else: bad.append(dict(r, types=r["types"][1:]))
        demand_rejected(ctx, "TypeCheckConf", bad, "altered traces")
    for c in cases[:2] + cases[-1:]: ctx.sample(dict(calls=c["calls"], sched=[e["k"] + str(e["p"]) for e in c["sched"]], filter=c["filter"]))
