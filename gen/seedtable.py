#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md. "missed first" names plants that made a check stronger.
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed=json.load(open(R+"/gen/missed.json"))
rows=[]
for d in sorted(os.listdir(R+"/seeded")):
    m=json.load(open(f"{R}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {missed.get(d,'caught')} |")
t=open(R+"/DESIGN.md").read()
t=re.sub(r"\n## 7\. Planted bugs.*\Z","",t,flags=re.S).rstrip()+"\n"
t+="\n## 7. Planted bugs\n\nEach is caught by the quick check of the property named, unless said otherwise.\n\n| id | check | needs | result |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
open(R+"/DESIGN.md","w").write(t)
