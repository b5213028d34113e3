#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: run after adding a check.
import json, os, subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T="runtime monitoring: "
C={
"C01":("reference-model monitor over random operation histories, ASan+UBSan build",
       "Random histories and formatted files against a model; held on the histories of this run, assumes values without '#' and '=' as documented."),
}
extra=os.path.join(V,"tools","manifest_checks.json")
if os.path.exists(extra):
    C.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
na=json.load(open(V+"/tools/not_applicable.json")) if os.path.exists(V+"/tools/not_applicable.json") else {}
checks=[]
for p in props:
    if p in C and os.path.exists(V+"/checks/%s.py"%p):
        t,n=C[p][:2]; lv=C[p][2] if len(C[p])>2 else "exploration"
        checks.append({"property":p,"quick_cmd":"python3 checks/%s.py"%p,"thorough_cmd":"python3 checks/%s.py --thorough"%p,
          "technique":T+t,"level":lv,"level_note":n})
done={c["property"] for c in checks}
m={"version":1,"setup_cmd":"python3 lib/setup.py","hooks":{"guard":"none","enable":"no hooks: the checks build /repo's sources unmodified (with -DLIBSGRID, an option of the code itself) and observe them from outside","source_commits":[]},
 "checks":checks,
 "not_applicable":[{"property":p,"reason":na.get(p,"check still under construction")} for p in props if p not in done],
 "notes":"Every check builds /repo's current tree with its own Makefiles in a scratch directory and removes it afterwards. Known findings: known_findings.json."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(m["not_applicable"]),"not claimed")
