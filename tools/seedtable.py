#!/usr/bin/env python3
"""seedtable.py: the table of planted bugs in DESIGN.md, from seeded/*/meta.json (documentation only; no check reads them)."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=["| bug | property (check that catches it) | needs | breaks |","|-|-|-|-|"]
for p in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(p)); L.append("| %s | %s | %s | %s |"%(p.split("/")[-2],m["property"],m["needs"],m["what_it_breaks"]))
t="<!-- seeds -->\n"+"\n".join(L)+"\n<!-- /seeds -->"
d=open(V+"/DESIGN.md").read()
d=d.replace("SEEDTABLE",t) if "SEEDTABLE" in d else re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:t,d,flags=re.S)
open(V+"/DESIGN.md","w").write(d)
