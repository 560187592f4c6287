# Rewrites the table of section 8 of DESIGN.md from seeded/*/meta.json.
import json,glob,re,os
rows=[]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['needs']} | {m.get('caught_by',m['property'])} |")
s=open("DESIGN.md").read()
if "@@TABLE@@" in s: s=s.replace("@@TABLE@@","\n".join(rows))
else: s=re.sub(r"(\| bug \| what it needs \| caught by \|\n\|---\|---\|---\|\n)(?:\|.*\n)+",lambda m:m[1]+"\n".join(rows)+"\n",s)
open("DESIGN.md","w").write(s)
