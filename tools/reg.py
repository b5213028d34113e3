#!/usr/bin/env python3
# reg.py check ID TECHNIQUE NOTE | reg.py fixed ID PROP COMMIT WHAT   (maintains the sources of MANIFEST.json and known_findings.json)
import sys,json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
if sys.argv[1]=="check":
    f=V+"/tools/manifest_checks.json"; d=json.load(open(f)); d[sys.argv[2]]=sys.argv[3:5]; json.dump(d,open(f,"w"),indent=1)
else:
    f=V+"/known_findings.json"; d=json.load(open(f)); i,p,c,w=sys.argv[2:6]
    d["findings"].append(dict(id=i,property=p,status="fixed",commit=c,keys=["*"],what="fixed: property=%s %s %s"%(p,c,w))); json.dump(d,open(f,"w"),indent=1)
