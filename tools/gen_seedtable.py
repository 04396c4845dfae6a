#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rows=["| bug | caught by | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open("%s/seeded/%s/meta.json"%(V,d))); rows.append("| %s | %s | %s | %s |"%(d,m["property"],m["what_it_breaks"],m["needs"]))
t="<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->"; p=V+"/DESIGN.md"; s=open(p).read()
s=s.replace("SEEDTABLE",t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:t,s,flags=re.S)
open(p,"w").write(s)
