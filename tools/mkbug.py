#!/usr/bin/env python3
"""mkbug.py FILE.py: each FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, files={name: text})]
and this writes /verif/seeded/<id>/ (the patch is made in a scratch copy of /repo)."""
import sys, os, subprocess, json, shutil, runpy, tempfile
PRE = '''#!/bin/bash
# Run with cwd /repo. Everything is written below a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
unset GOROOT GOFLAGS
module() { mkdir -p "$1"; sed 's/^module .*/module m.test/' "$repo/go.mod" > "$1/go.mod"; cp "$repo/go.sum" "$1/go.sum"; }
cg() { [ -x "$t/cg" ] || go build -buildvcs=false -o "$t/cg" ./cmd/controller-gen || exit 0; }
gomain() { # runs main.go beside this script inside the repository's module, without writing to it
  echo '{"Replace":{"'$repo'/pkg/schemapatcher/zzdemo/main.go":"'$here'/main.go"}}' > "$t/overlay.json"
  go build -buildvcs=false -overlay "$t/overlay.json" -o "$t/demo" ./pkg/schemapatcher/zzdemo || exit 0
}
'''
for src in sys.argv[1:]:
    for b in runpy.run_path(src)["BUGS"]:
        d = "/verif/seeded/" + b["id"]; os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
        subprocess.check_call(["git", "init", "-q", w]); subprocess.check_call(["git", "-C", w, "add", "-A"]); subprocess.check_call(["git", "-C", w, "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x"])
        for f, old, new in b["edits"]:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        shutil.rmtree(w)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(PRE + b["demo"].strip("\n") + "\n"); os.chmod(d + "/demo.sh", 0o755)
        for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t)
        print("wrote", b["id"])
