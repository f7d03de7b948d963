#!/usr/bin/env python3
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
mods=json.load(open(here+"/checks/modules.json"))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
notes=json.load(open(here+"/tools/notes.json"))
m=dict(version=1,setup_cmd="./setup.sh",checks=[],not_applicable=[])
for p in props:
    i=p["id"]
    if i in mods:
        m["checks"].append(dict(property=i,quick_cmd="./check %s quick"%i,thorough_cmd="./check %s thorough"%i,
            technique=notes.get(i,{}).get("technique","TLA+ specification checked with TLC; generated cases replayed into the real code and every observation judged by TLC against the specification"),
            level="model_checking",level_note=notes.get(i,{}).get("note","The design model is exhaustive within small constants; the real code is bound to it by the observations of replayed and seeded random cases, so for the code it is exploration.")))
    else: m["not_applicable"].append(dict(property=i,reason=notes.get(i,{}).get("na","no check has been built for it yet")))
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
