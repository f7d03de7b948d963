#!/usr/bin/env python3
"""addfixed.py PROP COMMIT WHAT: records a repaired defect."""
import json, sys
p = "/verif/known-findings.json"; d = json.load(open(p)); prop, c, what = sys.argv[1:4]
d["entries"].append(dict(property=prop, kind="fixed", line="fixed: property=%s %s %s" % (prop, c, what), commit=c))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
