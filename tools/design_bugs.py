#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md"""
import json,os,glob
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
out=["| bug | caught by | what it breaks |","|---|---|---|"]
also={"restart-skic":", P15"}
for f in sorted(glob.glob(d+"/seeded/*/meta.json")):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    out.append("| %s | %s%s | %s |" % (n, m["property"], also.get(n,""), m["what_it_breaks"]))
t=open(d+"/DESIGN.md").read()
head=t.split("<!-- bugs -->")[0]
open(d+"/DESIGN.md","w").write(head+"<!-- bugs -->\n"+"\n".join(out)+"\n")
