#!/usr/bin/env python3
"""Regenerates the "fixed" list of /verif/known_findings.json from the fix: commits of /repo."""
import json, subprocess
PROP = {
"6a6f0b1":"C02","5ad096a":"C11","3c5864f":"C08","6cf3428":"C08","505780e":"C23","ce0aec3":"C23","340949f":"C15","857f7e9":"C15","6e89aad":"C15","2f8714d":"C07","e4b2dee":"C06","d16e761":"C06","001520b":"C01","483aefa":"C01","1954b7b":"C01","df57fbd":"C01","8ca620f":"C07","87c2e4d":"C29","0ed179e":"C28","73f882b":"C27","077a3c9":"C27","fe402c9":"C13","7a98396":"C08","8b72626":"C08","197ff1c":"C25","b836dee":"C25","5f4781d":"C12","df92456":"C25","7c2821d":"C26","70a0161":"C26","89b2560":"C26","911693e":"C24","41fa1f4":"C24","a091c2f":"C24","c3c896b":"C24","4b612fc":"C25","f7b40ee":"C25","55d4710":"C25","b7b5fa9":"C25","59aeec7":"C03","1cae68f":"C03","5f6dd74":"C14","7c5fb1c":"C25","14b5d9e":"C25","95ff9bf":"C04","eeaa9bd":"C04","45fd6e9":"C06",
}
PROP.update(json.load(open("/verif/tools/fixed_more.json")))
out=[]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
for l in log.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix: "):
        if h not in PROP: print("no property for",l); continue
        out.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
p="/verif/known_findings.json"
try: d=json.load(open(p))
except FileNotFoundError: d={"findings":[]}
d["fixed"]=out
json.dump(d,open(p,"w"),indent=1); open(p,"a").write("\n")
