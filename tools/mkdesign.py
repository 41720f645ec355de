#!/usr/bin/env python3
# Writes /verif/DESIGN.md from tools/notes.py, properties.jsonl, the harness' list and seeded/.
import json,os,subprocess,sys,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(root,"tools","notes.py")).read())
subs={}
for l in subprocess.run([sys.argv[1] if len(sys.argv)>1 else "/tmp/h","list"],capture_output=True,text=True,check=True).stdout.splitlines():
    f=l.split(None,4); subs.setdefault(f[0],[]).append(f[1:])
seeds={}
for m in sorted(glob.glob(root+"/seeded/*/meta.json")):
    d=json.load(open(m)); seeds.setdefault(d["property"],[]).append((os.path.basename(os.path.dirname(m)),d))
out=[open(os.path.join(root,"tools","design_head.md")).read()]
for l in open(os.path.join(root,"properties.jsonl")):
    p=json.loads(l); i=p["id"]; gen,orc,why,lim=DESIGN[i]
    out.append(f"### {i} {p['title']}\n\nGenerated: {gen}\n\nOracle: {orc}\n\nWhy tests cannot settle it: {why}\n")
    if lim: out.append(f"Limits: {lim}\n")
    out.append("| sub-check | quick cases | thorough cases | non-trivial when |\n|---|---|---|---|")
    for s in subs[i]:
        rule=s[3].split("non-trivial:")[-1].strip()
        out.append(f"| {s[0]} | {s[1].split('=')[1]} | {s[2].split('=')[1]} | {rule} |")
    out.append("")
    if i in seeds:
        out.append("Planted changes (all caught by this check): "+"; ".join(f"`{n}` ({d['what_it_breaks']})" for n,d in seeds[i])+".\n")
out.append(open(os.path.join(root,"tools","design_tail.md")).read())
open(os.path.join(root,"DESIGN.md"),"w").write("\n".join(out))
