import json
from vlib import *

def mk(rng, valid):
    c = lambda xs, w=None: rng.choice(xs)
    case = lambda s: c([s, s.lower(), s.upper(), s.capitalize(), "".join(ch.upper() if rng.random() < .5 else ch.lower() for ch in s)])
    m = dict(mutating=rng.random() < .5, name=c(["a.x.io", "b.x.io", "c.x.io", "a.x.io", "B.x.io"]),
             groups=rng.sample(["core", "apps", "", "batch", "a.b", "*"], rng.randint(1, 3)),
             resources=rng.sample(["pods", "jobs", "pods/status", "*", "cronjobs"], rng.randint(1, 3)),
             versions=rng.sample(["v1", "v1beta1", "v2", "*"], rng.randint(1, 2)),
             verbs=[case(v) for v in rng.sample(["create", "update", "delete", "connect", "*"], rng.randint(1, 3))],
             failure=case(c(["fail", "ignore"])), match="", side=c([case("None"), case("NoneOnDryRun")]), timeout=[],
             arv=rng.sample(["v1", "v1beta1"], rng.randint(1, 2)), reinv="", url="", path="", svcName="", svcNs="", port=[], whv=[])
    for k in ("groups", "resources", "versions", "verbs", "arv"):
        if rng.random() < .08: m[k].append(rng.choice(m[k]))   # lists are passed on as written, also those that say something twice
    if rng.random() < .1: m["verbs"].append("Sync")           # an unknown verb is passed on as written
    if rng.random() < .1: m["failure"] = "Perhaps"
    if rng.random() < .35: m["match"] = case(c(["exact", "equivalent"]))
    if rng.random() < .5: m["timeout"] = [c([1, 2, 10, 29, 30, 0])]
    if m["mutating"]:
        if rng.random() < .5: m["reinv"] = case(c(["never", "ifNeeded"]))
        elif rng.random() < .1: m["reinv"] = "sometimes"
    elif rng.random() < .15: m["reinv"] = case(c(["never", "ifNeeded"]))
    if rng.random() < .3: m["url"] = c(["https://h.example.com/x", "https://h:8443/y"])
    else: m["path"] = c(["/mutate", "/validate-v1", "/x/y"])
    if rng.random() < .3: m["svcName"] = c(["svc", "other"])
    if rng.random() < .3: m["svcNs"] = c(["ns", "kube-system"])
    if rng.random() < .3: m["port"] = [c([443, 8443, 1])]
    if rng.random() < .2: m["whv"] = c([["v1"], ["v1", "v1"]])
    if not valid:
        f = c(["both", "neither", "arv", "t-", "t+", "tbig", "sideless", "some", "unknownside", "match", "whv"])
        if f == "both": m["url"], m["path"] = "https://u", "/p"
        if f == "neither": m["url"], m["path"] = "", ""
        if f == "arv": m["arv"] = []
        if f == "t-": m["timeout"] = [c([-1, -30])]
        if f == "t+": m["timeout"] = [c([31, 60, 100])]
        if f == "tbig": m["timeout"] = [c([300, 86400, 2147483000, 2147480001])]   # the last one is written as 2^32+5 (TLC has 32 bit integers)
        if f == "sideless": m["side"] = ""
        if f == "some": m["side"] = case("Some")
        if f == "unknownside": m["side"] = c([case("Unknown"), "often"])
        if f == "match": m["match"] = "fuzzy"
        if f == "whv": m["whv"] = c([["v1beta1"], ["v1", "v1beta1"], ["v2"]])
    return m

def q(rng, s): return '"%s"' % s if s == "" or rng.random() < .3 or any(ch in s for ch in ":,;*") else s
def l(rng, xs): return ("{" + ",".join('"%s"' % x for x in xs) + "}") if (not xs or rng.random() < .3) else ";".join(q(rng, x) for x in xs)
def text(rng, m):
    p = ["mutating=" + ("true" if m["mutating"] else "false"), "name=" + q(rng, m["name"]), "groups=" + l(rng, m["groups"]),
         "resources=" + l(rng, m["resources"]), "versions=" + l(rng, m["versions"]), "verbs=" + l(rng, m["verbs"]),
         "failurePolicy=" + q(rng, m["failure"]), "admissionReviewVersions=" + l(rng, m["arv"])]
    if m["match"]: p.append("matchPolicy=" + q(rng, m["match"]))
    if m["side"]: p.append("sideEffects=" + q(rng, m["side"]))
    if m["timeout"]: p.append("timeoutSeconds=%d" % (m["timeout"][0] if m["timeout"][0] != 2147480001 else 4294967301))
    if m["reinv"]: p.append("reinvocationPolicy=" + q(rng, m["reinv"]))
    if m["url"]: p.append('url="%s"' % m["url"])
    if m["path"]: p.append("path=" + q(rng, m["path"]))
    if m["svcName"]: p.append("serviceName=" + q(rng, m["svcName"]))
    if m["svcNs"]: p.append("serviceNamespace=" + q(rng, m["svcNs"]))
    if m["port"]: p.append("servicePort=%d" % m["port"][0])
    if m["whv"]: p.append("webhookVersions=" + l(rng, m["whv"]))
    if rng.random() < .5: rng.shuffle(p)
    return "// +kubebuilder:webhook:" + ",".join(p)

def render_pkg(rng, p, name):
    """Markers in source order, in one or two files, partly in front of types (the first kind of place a user puts them)."""
    lines = [("c", x) for x in p["cfgs"]] + [("w", x) for x in p["whs"]]
    # interleave, keeping the order within each kind
    k = {"c": list(p["cfgs"]), "w": list(p["whs"])}
    order = [a for a, _ in lines]; rng.shuffle(order)
    cut = rng.choice([len(order)] * 2 + [rng.randint(0, len(order))])
    files = {"a.go": "package %s\n\n" % name, "b.go": "package %s\n\n" % name}
    for n, a in enumerate(order):
        x = k[a].pop(0); f = "a.go" if n < cut else "b.go"
        t = text(rng, x) if a == "w" else "// +kubebuilder:webhookconfiguration:mutating=%s%s" % ("true" if x["mutating"] else "false", (",name=" + q(rng, x["name"])) if x["name"] else "")
        files[f] += t + "\n" + ("" if rng.random() < .4 else "\n")
        if rng.random() < .3: files[f] += "\n// T is documented.\ntype T%d struct {\n\tA int\n}\n\n" % n
        elif rng.random() < .1: files[f] += "\n// F is documented.\nfunc F%d() {\n}\n\n" % n
    if rng.random() < .3: files["b.go"] += "\nvar Last = 1\n"
    return files

def project(text):
    docs = []
    for d in yload_all(text):
        whs = []
        for w in d.get("webhooks", []):
            cc = w["clientConfig"]; s = cc.get("service")
            assert len(w["rules"]) == 1, w
            r = w["rules"][0]
            unknown = set(w) - {"name", "rules", "clientConfig", "failurePolicy", "matchPolicy", "sideEffects", "timeoutSeconds", "admissionReviewVersions", "reinvocationPolicy"}
            opt = lambda k: [w[k]] if w.get(k) is not None else []
            e = dict(name=w["name"], groups=r.get("apiGroups", []), resources=r.get("resources", []), versions=r.get("apiVersions", []), ops=r.get("operations", []),
                failure=w.get("failurePolicy", "(none)"), match=opt("matchPolicy"), side=opt("sideEffects"), timeout=opt("timeoutSeconds"),
                arv=w.get("admissionReviewVersions") or [], reinv=opt("reinvocationPolicy"), url=[cc["url"]] if "url" in cc else [],
                service=[dict(name=s["name"], ns=s["namespace"], path=s.get("path", ""), port=[s["port"]] if s.get("port") is not None else [])] if s else [])
            if unknown or "scope" in r: e["name"] += "?unexpected fields"
            whs.append(e)
        docs.append(dict(kind=d["kind"], api=d["apiVersion"], name=d["metadata"].get("name", ""), webhooks=whs))
    return docs

def run(ctx, prop):
    model_check(ctx, "WebhookRun")
    rng = ctx.rng
    cases, recs0 = [], []
    if ctx.replay: cases, recs0 = [ctx.replay["case"]["input"]], [ctx.replay["case"]["pkgs"]]
    else:
        n = 4000 if ctx.thorough else 900
        for i in range(n):
            bad = rng.random() < (.15 if prop == "W01" else .5)
            npk = rng.choice([1, 1, 1, 2, 2, 3])
            pkgs = []
            for p in range(npk):
                k = rng.choice([0, 1, 2, 3, 4, 6, 6, 20 if rng.random() < .4 else 5] if not bad else [0, 1, 2, 3])
                cfgs = []
                if rng.random() < .45:
                    for mut in rng.sample([True, False], rng.choice([1, 1, 2])):
                        cfgs.append(dict(mutating=mut, name=rng.choice(["conf-a", "conf-b", ""])))
                whs = [mk(rng, True) for _ in range(k)]
                if rng.random() < .3:    # many entries of one name: their order is the source order
                    nm = rng.choice(["a.x.io", "z"])
                    for j, w in enumerate(whs): w["name"] = nm; w["path"], w["url"] = "/p%d" % j, ""
                pkgs.append(dict(cfgs=cfgs, whs=whs))
            if bad:
                p = rng.choice(pkgs)
                if rng.random() < .2: p["cfgs"] += [dict(mutating=m, name=rng.choice(["d1", "d2"])) for m in [rng.random() < .5] * 2]
                else: p["whs"].insert(rng.randint(0, len(p["whs"])), mk(rng, False))
            files = {}
            for j, p in enumerate(pkgs):
                for f, t in render_pkg(rng, p, "p%d" % j).items(): files["p%d/%s" % (j, f)] = t
            cases.append(dict(id=str(i), files=files, gens=["webhook"], reps=(8 if ctx.thorough else 4) if prop == "W02" else 1, seed=1, order="keep"))
            recs0.append(pkgs)
    exe = build_driver(ctx, "gen")
    obs = run_sharded(ctx, exe, cases)
    recs = []
    for c, pkgs in zip(cases, recs0):
        reps = {}
        for r in obs[c["id"]]["reps"]:
            g = r["gens"][0]
            failed = bool(g["err"] or g["panic"] or r["errs"])
            if set(g["files"]) - {"manifests.yaml"}: ctx.violation("unexpected files", dict(input=c, pkgs=pkgs))
            reps[(failed, g["files"].get("manifests.yaml", ""))] = 1
        recs.append(dict(pkgs=pkgs, reps=[dict(failed=f, docs=project(t)) for f, t in sorted(reps)]))
    ctx.count("generator_runs", sum(c["reps"] for c in cases))
    ctx.count("runs_refused", sum(1 for r in recs if r["reps"][0]["failed"]))
    for i, why in judge(ctx, "WebhookConf", recs, env=dict(PROP=prop)):
        ctx.violation("%s: %s" % (why, json.dumps(recs[i])[:1500]), dict(input=cases[i], pkgs=recs0[i], observed=recs[i]["reps"]))
    good = [r for r in recs if not r["reps"][0]["failed"] and r["reps"][0]["docs"]]
    corrupt = []
    for r in good[:6]:
        c = json.loads(json.dumps(r)); w = c["reps"][0]["docs"][0]["webhooks"]
        if prop == "W01": w[0]["timeout"] = [17]
        else: c["reps"][0]["failed"] = True
        corrupt.append(c)
    if not ctx.violations and not ctx.replay: demand_rejected(ctx, "WebhookConf", corrupt, "timeout changed / failure flipped", env=dict(PROP=prop))
    for r in recs[:3]: ctx.sample(r)

def W01(ctx): run(ctx, "W01")
def W02(ctx): run(ctx, "W02")
