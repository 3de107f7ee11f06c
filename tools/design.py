#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from tools/design_props.md and tools/caught.json."""
import json,re,os
d=open("/verif/tools/design_head.md").read()
props=open("/verif/tools/design_props.md").read()
c=json.load(open("/verif/tools/caught.json"))
rows=["| planted bug | property | needs | caught by its check |","|---|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m=json.load(open(f"/verif/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {c.get(i,'?')} |")
open("/verif/DESIGN.md","w").write(d.replace("@@PROPS@@",props).replace("@@SEEDS@@","\n".join(rows)))
