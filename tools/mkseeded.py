"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json,os,re
d="/verif/seeded"
rows=[]
for i in os.listdir(d):
    m=json.load(open(f"{d}/{i}/meta.json"))
    rows.append((m["property"],i,m["needs"].replace("\n"," "),m["what_it_breaks"].replace("\n"," "),m.get("caught_by",m["property"])))
rows.sort()
t="| property | change | needs | breaks | caught by |\n|---|---|---|---|---|\n"+"".join("| "+" | ".join(c.replace("|","\\|") for c in r)+" |\n" for r in rows)
p="/verif/DESIGN.md"
s=open(p).read()
s=re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)",lambda m:m.group(1)+t+m.group(2),s,flags=re.S)
open(p,"w").write(s)
print(len(rows),"changes")
