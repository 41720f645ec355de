#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a check for every property the harness has sub-checks for.
import json,subprocess,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=subprocess.run([sys.argv[1] if len(sys.argv)>1 else "/tmp/h","list"],capture_output=True,text=True,check=True).stdout
subs={}
for l in out.splitlines():
    f=l.split()
    subs.setdefault(f[0],[]).append(f[1])
NOTES={}
exec(open(os.path.join(root,"tools","notes.py")).read())
checks=[];na=[]
for l in open(os.path.join(root,"properties.jsonl")):
    p=json.loads(l); i=p["id"]
    if i in subs:
        tech,note=NOTES.get(i,("property-based testing with generated inputs against an explicit oracle",""))
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
            technique=tech,level="exploration",
            level_note=(note+" " if note else "")+"Sub-checks: "+", ".join(subs[i])+". Exploration of generated cases only: no proof for the inputs not generated; trusts the oracle written in /verif/harness (stated in DESIGN.md)."))
    else:
        na.append(dict(property=i,reason="no check has been built for it yet"))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks: the harness links /repo's package and uses its exported API only. known_findings.txt lists repaired defects (fixed:) and, if any, recorded ones (finding:)."),
  open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
